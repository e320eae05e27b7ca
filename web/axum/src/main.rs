//! C15 for axum.

mod templates {
    use askama_axum::{Error, Template};

    include!("../../templates.rs");

    pub(crate) use with_template;
}

use axum::body::Body;
use axum::http::Request;
use axum::routing::get;
use axum::Router;
use futures_util::FutureExt;
use http_body::Body as _;
use std::cell::RefCell;
use std::pin::Pin;
use std::task::{Context, Poll};
use tower::util::ServiceExt;
use vweb::case::Entry;
use vweb::values::{Vals, P};
use vweb::{Answer, Page, Web};

use askama_axum::axum_core::response::{IntoResponse, Response};
use templates::*;

thread_local! {
    static VALUES: RefCell<Option<Vals>> = const { RefCell::new(None) };
}

fn values() -> Vals {
    VALUES.with(|v| v.borrow_mut().take()).expect("no request")
}

struct Axum(Router);

fn page(r: Response) -> Page {
    let status = r.status().as_u16();
    let values = r.headers().get_all("content-type").iter();
    let content_types = values.map(|v| v.to_str().unwrap_or("?").to_owned()).collect();
    let announced = r.headers().get("content-length").map(|v| v.to_str().unwrap().parse().unwrap());
    let mut body = Box::pin(r.into_body());
    Page {
        status,
        content_types,
        length: announced.or(body.size_hint().exact()),
        body: Box::new(move |_| loop {
            let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
            match Pin::new(&mut body).poll_frame(&mut cx) {
                Poll::Ready(None) => return None,
                Poll::Ready(Some(Err(e))) => return Some(Err(e.to_string())),
                Poll::Ready(Some(Ok(f))) => match f.into_data() {
                    Ok(data) => return Some(Ok(data.to_vec())),
                    Err(_) => continue,
                },
                Poll::Pending => return Some(Err("the body is never ready".into())),
            }
        }),
    }
}

fn respond<T: IntoResponse>(t: T) -> Response {
    t.into_response()
}

fn into<T: askama_axum::Template>(t: T) -> Response {
    askama_axum::into_response(&t)
}

fn fallible<T: askama_axum::Template>(t: T) -> Result<Response, String> {
    askama_axum::try_into_response(&t).map_err(|e| e.to_string())
}

impl Web for Axum {
    fn new() -> Self {
        Axum(
            Router::new()
                .route("/0", get(|| async { T0 { v: values() } }))
                .route("/1", get(|| async { T1 { v: values() } }))
                .route("/2", get(|| async { T2 { v: values() } }))
                .route("/3", get(|| async { T3 { v: &values() }.into_response() }))
                .route("/4", get(|| async { T4 { v: values() } }))
                .route("/5", get(|| async { T5::<P> { t: values().a } }))
                .route("/6", get(|| async { T6 { v: values() } }))
                .route("/7", get(|| async { T7 }))
                .route("/8", get(|| async { T8 { v: values() } }))
                .route("/9", get(|| async { T9 { v: std::sync::Arc::new(values()) } })),
        )
    }

    fn serve(&mut self, entry: Entry, template: usize, v: Vals) -> Answer {
        Answer::Page(page(match entry {
            Entry::App => {
                VALUES.with(|c| *c.borrow_mut() = Some(v));
                let request = Request::builder().uri(format!("/{template}")).body(Body::empty()).unwrap();
                self.0.clone().oneshot(request).now_or_never().expect("the handler waits").unwrap()
            }
            Entry::Into => with_template!(template, v, into),
            Entry::Respond => with_template!(template, v, respond),
            Entry::Try => match with_template!(template, v, fallible) {
                Ok(r) => r,
                Err(e) => return Answer::Error(e),
            },
        }))
    }

    fn render(template: usize, v: Vals) -> Result<String, String> {
        with_template!(template, v, plain)
    }

    fn mime(template: usize) -> &'static str {
        mime(template)
    }
}

fn main() {
    vweb::explore::main::<Axum>();
}
