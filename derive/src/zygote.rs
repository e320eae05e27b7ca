//! Runs derives in processes of their own, which have never done anything else.

use std::collections::HashMap;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use vsim::rng::mix_str;

use crate::case::DeriveSpec;
use crate::tree::Tree;
use crate::vfs::{simulate, Ctx, Op};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Outcome {
    Code(String),
    Error(String, Option<String>),
    Panic(String),
    /// The process was ended
    Crash(String),
}

impl Outcome {
    pub fn short(&self) -> String {
        match self {
            Outcome::Code(c) => {
                let c: String = c.chars().take(3000).collect();
                format!("code {c}")
            }
            Outcome::Error(e, s) => format!("error {e:?}{}", if s.is_none() { " without fallback" } else { "" }),
            Outcome::Panic(m) => format!("panic {m:?}"),
            Outcome::Crash(m) => format!("crash {m}"),
        }
    }
}

/// Derives on this thread, in the simulated system
pub fn derive(tree: &Tree, spec: &DeriveSpec) -> (Outcome, Ctx) {
    let ctx = Ctx {
        fs: Arc::new(Mutex::new(tree.fs())),
        cwd: spec.cwd.clone(),
        hash_seed: spec.hash_seed,
        faults: spec.faults.clone(),
        ..Ctx::default()
    };
    let item = &tree.items[spec.item];
    let (r, ctx) = simulate(ctx, || askama_derive_lib::verif_derive_template(item));
    let outcome = match r {
        Ok(Ok(code)) => Outcome::Code(code),
        Ok(Err((msg, skeleton))) => Outcome::Error(msg, skeleton),
        Err(payload) => {
            let msg = match (payload.downcast_ref::<String>(), payload.downcast_ref::<&str>()) {
                (Some(s), _) => s.clone(),
                (_, Some(s)) => s.to_string(),
                _ => "?".into(),
            };
            Outcome::Panic(msg)
        }
    };
    (outcome, ctx)
}

/// A thread like that of the compiler
pub fn thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::JoinHandle<R> {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).expect("thread")
}

#[derive(Serialize, Deserialize)]
struct Request {
    tree: Tree,
    spec: DeriveSpec,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Reply {
    pub outcome: Outcome,
    pub ops: Vec<(String, String)>,
    pub fired: Vec<(usize, String)>,
}

pub struct Zygote {
    to: File,
    from: File,
    cache: HashMap<u64, Reply>,
    pub processes: u64,
}

fn pipe() -> (File, File) {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]))
    }
}

fn send(f: &mut File, data: &[u8]) -> std::io::Result<()> {
    f.write_all(&(data.len() as u64).to_le_bytes())?;
    f.write_all(data)
}

fn receive(f: &mut File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 8];
    f.read_exact(&mut n)?;
    let mut data = vec![0; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut data)?;
    Ok(data)
}

fn names(ops: Vec<Op>) -> Vec<(String, String)> {
    ops.into_iter().map(|op| (op.kind.to_owned(), op.path)).collect()
}

impl Zygote {
    /// Must be called before there are any threads
    pub fn start() -> Zygote {
        let (mut requests, to) = pipe();
        let (from, mut replies) = pipe();
        match unsafe { libc::fork() } {
            -1 => panic!("fork"),
            0 => {
                drop(to);
                drop(from);
                while let Ok(request) = receive(&mut requests) {
                    let reply = serve(&request);
                    if send(&mut replies, &reply).is_err() {
                        break;
                    }
                }
                unsafe { libc::_exit(0) }
            }
            _ => Zygote { to, from, cache: HashMap::new(), processes: 0 },
        }
    }

    pub fn run(&mut self, tree: &Tree, spec: &DeriveSpec) -> Reply {
        self.processes += 1;
        let request = serde_json::to_vec(&Request { tree: tree.clone(), spec: spec.clone() }).unwrap();
        send(&mut self.to, &request).expect("request");
        let reply = receive(&mut self.from).expect("reply");
        let reply: Reply = serde_json::from_slice(&reply).expect("reply");
        if std::env::var_os("VRT_VERBOSE").is_some() && matches!(reply.outcome, Outcome::Crash(_)) {
            eprintln!("{:?}", reply.outcome);
            eprintln!("{}", String::from_utf8_lossy(&request));
        }
        reply
    }

    /// What a derive that nothing interferes with yields
    pub fn clean(&mut self, tree: &Tree, item: usize) -> Reply {
        self.clean_at(tree, item, crate::tree::PACKAGE)
    }

    pub fn clean_at(&mut self, tree: &Tree, item: usize, cwd: &str) -> Reply {
        let spec = DeriveSpec { item, cwd: cwd.into(), ..DeriveSpec::default() };
        let mut key = mix_str(mix_str(1, &tree.items[item]), cwd);
        for (path, content) in &tree.files {
            key = mix_str(key, path);
            key = mix_str(key, &format!("{content:?}"));
        }
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        let reply = self.run(tree, &spec);
        if self.cache.len() > 300 {
            self.cache.clear();
        }
        self.cache.insert(key, reply.clone());
        reply
    }
}

fn serve(request: &[u8]) -> Vec<u8> {
    let (mut from, mut to) = pipe();
    let pid = unsafe { libc::fork() };
    match pid {
        -1 => panic!("fork"),
        0 => {
            drop(from);
            unsafe { libc::alarm(20) };
            let request: Request = serde_json::from_slice(request).expect("request");
            let (outcome, ctx) = thread(move || derive(&request.tree, &request.spec)).join().unwrap();
            let reply = Reply { outcome, ops: names(ctx.ops), fired: ctx.fired };
            let _ = to.write_all(&serde_json::to_vec(&reply).unwrap());
            unsafe { libc::_exit(0) }
        }
        _ => {}
    }
    drop(to);
    let mut data = Vec::new();
    let _ = from.read_to_end(&mut data);
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    if status == 0 {
        return data;
    }
    let message = match (libc::WIFSIGNALED(status), libc::WTERMSIG(status)) {
        (true, libc::SIGALRM) => "the derive does not terminate".to_owned(),
        (true, libc::SIGABRT | libc::SIGSEGV) => format!("signal {} (stack overflow?)", libc::WTERMSIG(status)),
        (true, n) => format!("signal {n}"),
        _ => format!("exit code {}", libc::WEXITSTATUS(status)),
    };
    let reply = Reply { outcome: Outcome::Crash(message), ops: Vec::new(), fired: Vec::new() };
    serde_json::to_vec(&reply).unwrap()
}
