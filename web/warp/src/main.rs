//! C15 for warp.

mod templates {
    use askama_warp::{Error, Template};

    include!("../../templates.rs");

    pub(crate) use with_template;
}

use std::cell::RefCell;
use std::convert::Infallible;
use std::pin::Pin;
use std::task::{Context, Poll};

use futures_util::task::noop_waker_ref;
use futures_util::FutureExt;
use tower_service::Service;
use vweb::case::Entry;
use vweb::values::{Vals, P};
use vweb::{Answer, Page, Web};
use warp::http::Request;
use warp::hyper::body::HttpBody;
use warp::hyper::Body;
use warp::reply::Response;
use warp::{Filter, Reply};

use templates::*;

thread_local! {
    static VALUES: RefCell<Option<Vals>> = const { RefCell::new(None) };
}

fn values() -> Vals {
    VALUES.with(|v| v.borrow_mut().take()).expect("no request")
}

struct Warp {
    /// Serves a path
    call: Box<dyn FnMut(&str) -> Response>,
}

fn page(r: Response) -> Page {
    let status = r.status().as_u16();
    let types = r.headers().get_all("content-type").iter();
    let content_types = types.map(|v| v.to_str().unwrap_or("?").to_owned()).collect();
    let announced = r.headers().get("content-length").map(|v| v.to_str().unwrap().parse().unwrap());
    let mut body = Box::pin(r.into_body());
    Page {
        status,
        content_types,
        length: announced.or(HttpBody::size_hint(&*body).exact()),
        body: Box::new(move |_| {
            let mut cx = Context::from_waker(noop_waker_ref());
            match Pin::new(&mut body).poll_data(&mut cx) {
                Poll::Ready(None) => None,
                Poll::Ready(Some(Err(e))) => Some(Err(e.to_string())),
                Poll::Ready(Some(Ok(data))) => Some(Ok(data.to_vec())),
                Poll::Pending => Some(Err("the body is never ready".into())),
            }
        }),
    }
}

fn respond<T: Reply>(t: T) -> Response {
    t.into_response()
}

fn into<T: askama_warp::Template>(t: T) -> Response {
    askama_warp::into_response(&t)
}

fn fallible<T: askama_warp::Template>(t: T) -> Result<Response, String> {
    askama_warp::try_into_response(&t).map_err(|e| e.to_string())
}

impl Web for Warp {
    const NESTS: bool = false;

    fn new() -> Self {
        let routes = warp::path!("0")
            .map(|| T0 { v: values() })
            .or(warp::path!("1").map(|| T1 { v: values() }))
            .or(warp::path!("2").map(|| T2 { v: values() }))
            .or(warp::path!("3").map(|| respond(T3 { v: &values() })))
            .or(warp::path!("4").map(|| T4 { v: values() }))
            .or(warp::path!("5").map(|| T5::<P> { t: values().a }))
            .or(warp::path!("6").and_then(|| async { Ok::<_, Infallible>(T6 { v: values() }) }))
            .or(warp::path!("7").map(|| T7))
            .or(warp::path!("8").map(|| T8 { v: values() }))
            .or(warp::path!("9").map(|| T9 { v: std::sync::Arc::new(values()) }));
        let mut service = warp::service(routes);
        Warp {
            call: Box::new(move |path| {
                let request = Request::builder().uri(path).body(Body::empty()).unwrap();
                service.call(request).now_or_never().expect("the handler waits").unwrap()
            }),
        }
    }

    fn serve(&mut self, entry: Entry, template: usize, v: Vals) -> Answer {
        Answer::Page(page(match entry {
            Entry::App => {
                VALUES.with(|c| *c.borrow_mut() = Some(v));
                (self.call)(&format!("/{template}"))
            }
            Entry::Into => with_template!(template, v, into),
            Entry::Respond => with_template!(template, v, respond),
            Entry::Try => match with_template!(template, v, fallible) {
                Ok(r) => r,
                Err(e) => return Answer::Error(e),
            },
        }))
    }

    fn render(template: usize, v: Vals) -> Result<String, String> {
        with_template!(template, v, plain)
    }

    fn mime(template: usize) -> &'static str {
        mime(template)
    }
}

fn main() {
    vweb::explore::main::<Warp>();
}
