pub use ::std::thread::*;

use ::std::io;
use ::std::marker::{Send, Sized};
use ::std::ops::FnOnce;
use ::std::option::Option::{self, None, Some};
use ::std::result::Result::Ok;
use ::std::string::String;
use ::std::time::Duration;
use ::std::vec::Vec;
use crate::rt::{active, Op};

pub struct JoinHandle<T> {
    inner: ::std::thread::JoinHandle<T>,
    id: Option<usize>
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        if let (Some(rt), Some(id)) = (active(), self.id) {
            rt.point(Op::Join(id));
        }
        self.inner.join()
    }
    pub fn is_finished(&self) -> bool {
        match (active(), self.id) {
            (Some(rt), Some(id)) => rt.is_finished(id),
            _ => self.inner.is_finished()
        }
    }
    pub fn thread(&self) -> &::std::thread::Thread {
        self.inner.thread()
    }
}

struct Leave(usize);
impl Drop for Leave {
    fn drop(&mut self) {
        if let Some(rt) = active() {
            rt.leave(self.0);
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    match active() {
        None => JoinHandle { inner: ::std::thread::spawn(f), id: None },
        Some(rt) => {
            let id = rt.register();
            let inner = ::std::thread::spawn(move || {
                rt.enter(id);
                let leave = Leave(id);
                let result = f();
                ::std::mem::drop(leave);
                result
            });
            rt.point(Op::Spawn);
            JoinHandle { inner, id: Some(id) }
        }
    }
}

#[derive(Default)]
pub struct Builder(Option<String>);
impl Builder {
    pub fn new() -> Self { Self(None) }
    pub fn name(self, name: String) -> Self { Self(Some(name)) }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        Ok(spawn(f))
    }
}

#[repr(transparent)]
pub struct Scope<'scope, 'env: 'scope>(::std::thread::Scope<'scope, 'env>);

pub struct ScopedJoinHandle<'scope, T> {
    inner: ::std::thread::ScopedJoinHandle<'scope, T>,
    id: Option<usize>
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        if let (Some(rt), Some(id)) = (active(), self.id) {
            rt.point(Op::Join(id));
        }
        self.inner.join()
    }
}

::std::thread_local! {
    static CHILDREN: ::std::cell::RefCell<Vec<usize>> = const { ::std::cell::RefCell::new(Vec::new()) };
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        match active() {
            None => ScopedJoinHandle { inner: self.0.spawn(f), id: None },
            Some(rt) => {
                let id = rt.register();
                CHILDREN.with(|c| c.borrow_mut().push(id));
                let inner = self.0.spawn(move || {
                    rt.enter(id);
                    let leave = Leave(id);
                    let result = f();
                    ::std::mem::drop(leave);
                    result
                });
                rt.point(Op::Spawn);
                ScopedJoinHandle { inner, id: Some(id) }
            }
        }
    }
}

pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T, T: Sized {
    let outer = CHILDREN.with(|c| ::std::mem::take(&mut *c.borrow_mut()));
    let result = ::std::thread::scope(|s| {
        // Same layout: `Scope` is a transparent wrapper.
        let s: &Scope<'_, 'env> = unsafe { ::std::mem::transmute(s) };
        let result = f(s);
        if let Some(rt) = active() {
            let children = CHILDREN.with(|c| ::std::mem::take(&mut *c.borrow_mut()));
            for c in children {
                rt.point(Op::Join(c));
            }
        }
        result
    });
    CHILDREN.with(|c| *c.borrow_mut() = outer);
    result
}

pub fn yield_now() {
    match active() {
        Some(rt) => rt.point(Op::Yield),
        None => ::std::thread::yield_now()
    }
}

pub fn sleep(d: Duration) {
    match active() {
        Some(rt) => rt.point(Op::Yield),
        None => ::std::thread::sleep(d)
    }
}
