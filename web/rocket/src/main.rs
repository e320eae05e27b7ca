//! C15 for Rocket.

mod templates {
    use askama_rocket::{Error, Template};

    include!("../../templates.rs");

    pub(crate) use with_template;
}

use std::cell::RefCell;
use std::future::Future;
use std::pin::pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use rocket::http::Status;
use rocket::local::asynchronous::{Client, LocalResponse};
use rocket::response::Responder;
use rocket::Response;
use tokio::io::{AsyncRead, AsyncReadExt};
use vweb::case::Entry;
use vweb::values::{Vals, P};
use vweb::{Answer, Page, Web};

use templates::*;

thread_local! {
    static VALUES: RefCell<Option<Vals>> = const { RefCell::new(None) };
}

fn values() -> Vals {
    VALUES.with(|v| v.borrow_mut().take()).expect("no request")
}

#[rocket::get("/0")]
fn t0() -> T0 {
    T0 { v: values() }
}

#[rocket::get("/1")]
fn t1() -> T1 {
    T1 { v: values() }
}

#[rocket::get("/2")]
fn t2() -> T2 {
    T2 { v: values() }
}

#[rocket::get("/3")]
async fn t3() -> T3<'static> {
    T3 { v: Box::leak(Box::new(values())) }
}

#[rocket::get("/4")]
async fn t4() -> T4 {
    T4 { v: values() }
}

#[rocket::get("/5")]
fn t5() -> T5<P> {
    T5 { t: values().a }
}

#[rocket::get("/6")]
fn t6() -> T6 {
    T6 { v: values() }
}

#[rocket::get("/7")]
fn t7() -> T7 {
    T7
}

#[rocket::get("/8")]
fn t8() -> T8 {
    T8 { v: values() }
}

#[rocket::get("/9")]
fn t9() -> T9 {
    T9 { v: std::sync::Arc::new(values()) }
}

struct Rocket {
    client: Rc<Client>,
}

/// Nothing here ever has to wait
fn now<T>(f: impl Future<Output = T>) -> T {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("it waits"),
    }
}

fn chunk(r: &mut (impl AsyncRead + Unpin), max: usize) -> Option<Result<Vec<u8>, String>> {
    let mut buf = vec![0; max.min(1 << 16)];
    match now(r.read(&mut buf)) {
        Ok(0) => None,
        Ok(n) => {
            buf.truncate(n);
            Some(Ok(buf))
        }
        Err(e) => Some(Err(e.to_string())),
    }
}

fn page(r: Response<'static>) -> Page {
    let status = r.status().code;
    let content_types = r.headers().get("content-type").map(|s| s.to_owned()).collect();
    let mut r = r;
    let announced = r.headers().get_one("content-length").map(|n| n.parse().unwrap());
    let length = announced.or(r.body().preset_size().map(|n| n as u64));
    Page { status, content_types, length, body: Box::new(move |max| chunk(r.body_mut(), max)) }
}

/// A response refers to its client
struct Local {
    response: LocalResponse<'static>,
    _client: Rc<Client>,
}

fn local(client: &Rc<Client>, response: LocalResponse<'_>) -> Page {
    // Safe, because the client outlives it
    let response = unsafe { std::mem::transmute::<LocalResponse<'_>, LocalResponse<'static>>(response) };
    let mut l = Local { response, _client: client.clone() };
    let r = &l.response;
    Page {
        status: r.status().code,
        content_types: r.headers().get("content-type").map(|s| s.to_owned()).collect(),
        length: r.headers().get_one("content-length").map(|n| n.parse().unwrap()),
        body: Box::new(move |max| chunk(&mut l.response, max)),
    }
}

fn into<T: askama_rocket::Template>(t: T) -> Response<'static> {
    askama_rocket::into_response(&t)
}

fn fallible<T: askama_rocket::Template>(t: T) -> Result<Response<'static>, String> {
    askama_rocket::try_into_response(&t).map_err(|e| e.to_string())
}

impl Web for Rocket {
    fn new() -> Self {
        let config = rocket::Config { log_level: rocket::config::LogLevel::Off, ..rocket::Config::debug_default() };
        let app = rocket::custom(config).mount("/", rocket::routes![t0, t1, t2, t3, t4, t5, t6, t7, t8, t9]);
        let runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
        Rocket { client: Rc::new(runtime.block_on(Client::untracked(app)).expect("application")) }
    }

    fn serve(&mut self, entry: Entry, template: usize, v: Vals) -> Answer {
        let client = &self.client;
        let respond = |r: rocket::response::Result<'static>| match r {
            Ok(r) => Ok(page(r)),
            Err(Status::InternalServerError) => Err("500".to_owned()),
            Err(s) => panic!("status {s}"),
        };
        Answer::Page(match entry {
            Entry::App => {
                VALUES.with(|c| *c.borrow_mut() = Some(v));
                local(client, now(client.get(format!("/{template}")).dispatch()))
            }
            Entry::Into => page(with_template!(template, v, into)),
            Entry::Respond => {
                let request = client.get("/");
                let request = request.inner();
                macro_rules! to {
                    ($t:expr) => {
                        $t.respond_to(request)
                    };
                }
                let r = match template {
                    0 => to!(T0 { v }),
                    1 => to!(T1 { v }),
                    2 => to!(T2 { v }),
                    3 => askama_rocket::respond(&T3 { v: &v }),
                    4 => to!(T4 { v }),
                    5 => to!(T5::<P> { t: v.a }),
                    6 => to!(T6 { v }),
                    7 => to!(T7),
                    8 => to!(T8 { v }),
                    _ => to!(T9 { v: std::sync::Arc::new(v) }),
                };
                match respond(r) {
                    Ok(p) => p,
                    Err(e) => return Answer::Error(e),
                }
            }
            Entry::Try => match with_template!(template, v, fallible) {
                Ok(r) => page(r),
                Err(e) => return Answer::Error(e),
            },
        })
    }

    fn render(template: usize, v: Vals) -> Result<String, String> {
        with_template!(template, v, plain)
    }

    fn mime(template: usize) -> &'static str {
        mime(template)
    }
}

fn main() {
    vweb::explore::main::<Rocket>();
}
