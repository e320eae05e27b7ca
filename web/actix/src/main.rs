//! C15 for actix-web.

mod templates {
    use askama_actix::{Error, Template};

    include!("../../templates.rs");

    pub(crate) use with_template;
}

use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::{test, web, App, HttpResponse, Responder};
use futures_util::task::noop_waker_ref;
use vweb::case::Entry;
use vweb::values::{Vals, P};
use vweb::{Answer, Page, Web};

use templates::*;

thread_local! {
    static VALUES: RefCell<Option<Vals>> = const { RefCell::new(None) };
}

fn values() -> Vals {
    VALUES.with(|v| v.borrow_mut().take()).expect("no request")
}

struct Actix {
    /// Serves a path
    call: Box<dyn Fn(&str) -> HttpResponse<BoxBody>>,
}

fn page(r: HttpResponse<BoxBody>) -> Page {
    let status = r.status().as_u16();
    let types = r.headers().get_all("content-type");
    let content_types = types.map(|v| v.to_str().unwrap_or("?").to_owned()).collect();
    let announced = r.headers().get("content-length").map(|v| v.to_str().unwrap().parse().unwrap());
    let body = r.into_body();
    let size = match body.size() {
        BodySize::None => Some(0),
        BodySize::Sized(n) => Some(n),
        BodySize::Stream => None,
    };
    // An empty body must not be polled
    let mut body = (size != Some(0)).then(|| Box::pin(body));
    Page {
        status,
        content_types,
        length: announced.or(size),
        body: Box::new(move |_| {
            let mut cx = Context::from_waker(noop_waker_ref());
            match Pin::new(body.as_mut()?).poll_next(&mut cx) {
                Poll::Ready(None) => None,
                Poll::Ready(Some(Err(e))) => Some(Err(e.to_string())),
                Poll::Ready(Some(Ok(data))) => Some(Ok(data.to_vec())),
                Poll::Pending => Some(Err("the body is never ready".into())),
            }
        }),
    }
}

fn respond<T: Responder<Body = BoxBody>>(t: T) -> HttpResponse<BoxBody> {
    t.respond_to(&test::TestRequest::default().to_http_request())
}

fn into<T: askama_actix::Template>(t: T) -> HttpResponse<BoxBody> {
    askama_actix::into_response(&t)
}

fn fallible<T: askama_actix::Template>(t: T) -> Result<HttpResponse<BoxBody>, String> {
    askama_actix::try_into_response(&t).map_err(|e| e.to_string())
}

impl Web for Actix {
    fn new() -> Self {
        let runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let local = tokio::task::LocalSet::new();
        let app = App::new()
            .route("/0", web::get().to(|| async { T0 { v: values() } }))
            .route("/1", web::get().to(|| async { T1 { v: values() } }))
            .route("/2", web::get().to(|| async { T2 { v: values() } }))
            .route("/3", web::get().to(|| async { respond(T3 { v: &values() }) }))
            .route("/4", web::get().to(|| async { T4 { v: values() } }))
            .route("/5", web::get().to(|| async { T5::<P> { t: values().a } }))
            .route("/6", web::get().to(|| async { T6 { v: values() } }))
            .route("/7", web::get().to(|| async { T7 }))
            .route("/8", web::get().to(|| async { T8 { v: values() } }))
            .route("/9", web::get().to(|| async { T9 { v: std::sync::Arc::new(values()) } }));
        let service = local.block_on(&runtime, test::init_service(app));
        Actix {
            call: Box::new(move |path| {
                let request = test::TestRequest::with_uri(path).to_request();
                // Not in the runtime, because a request may be served while another one is
                let mut f = Box::pin(test::call_service(&service, request));
                let mut cx = Context::from_waker(noop_waker_ref());
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => r.map_into_boxed_body().into_parts().1,
                    Poll::Pending => panic!("the handler waits"),
                }
            }),
        }
    }

    fn serve(&mut self, entry: Entry, template: usize, v: Vals) -> Answer {
        Answer::Page(page(match entry {
            Entry::App => {
                VALUES.with(|c| *c.borrow_mut() = Some(v));
                (self.call)(&format!("/{template}"))
            }
            Entry::Into => with_template!(template, v, into),
            Entry::Respond => with_template!(template, v, respond),
            Entry::Try => match with_template!(template, v, fallible) {
                Ok(r) => r,
                Err(e) => return Answer::Error(e),
            },
        }))
    }

    fn render(template: usize, v: Vals) -> Result<String, String> {
        with_template!(template, v, plain)
    }

    fn mime(template: usize) -> &'static str {
        mime(template)
    }
}

fn main() {
    vweb::explore::main::<Actix>();
}
