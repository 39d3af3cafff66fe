//! A stand-in for pyo3: Python callables are Rust closures of the harness, errors carry their message.
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Python<'a>(std::marker::PhantomData<&'a ()>);
impl Python<'_> {
    pub fn attach<R>(f: impl FnOnce(Python<'_>) -> R) -> R {
        f(Python(std::marker::PhantomData))
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn with_gil<R>(f: impl FnOnce(Python<'_>) -> R) -> R {
        Self::attach(f)
    }
}

/// what a callable gets and returns
#[derive(Clone, Debug)]
pub enum Obj {
    None,
    Int(i128),
    Str(String),
    Bool(bool),
}
impl Obj {
    fn truthy(&self) -> bool {
        match self {
            Obj::None => false,
            Obj::Int(i) => *i != 0,
            Obj::Str(s) => !s.is_empty(),
            Obj::Bool(b) => *b,
        }
    }
}
pub trait ToObj {
    fn obj(self) -> Obj;
}
macro_rules! int { ($($t:ty),*) => { $(impl ToObj for $t { fn obj(self) -> Obj { Obj::Int(self as i128) } })* } }
int!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl ToObj for String {
    fn obj(self) -> Obj {
        Obj::Str(self)
    }
}
impl ToObj for &str {
    fn obj(self) -> Obj {
        Obj::Str(self.to_string())
    }
}
impl ToObj for &String {
    fn obj(self) -> Obj {
        Obj::Str(self.clone())
    }
}
impl ToObj for bool {
    fn obj(self) -> Obj {
        Obj::Bool(self)
    }
}

pub struct PyAny;
pub struct Py<T> {
    f: Rc<dyn Fn(Obj) -> PyResult<Obj>>,
    v: Obj,
    p: std::marker::PhantomData<T>,
}
pub type PyObject = Py<PyAny>;
impl<T> Py<T> {
    pub fn callable(f: impl Fn(Obj) -> PyResult<Obj> + 'static) -> Self {
        Py { f: Rc::new(f), v: Obj::None, p: std::marker::PhantomData }
    }
    fn value(v: Obj) -> Self {
        Py { f: Rc::new(|_| Err(PyErr("not callable".into()))), v, p: std::marker::PhantomData }
    }
    pub fn call1<A: ToObj>(&self, _: Python<'_>, args: (A,)) -> PyResult<Py<PyAny>> {
        (self.f)(args.0.obj()).map(Py::value)
    }
    pub fn is_truthy(&self, _: Python<'_>) -> PyResult<bool> {
        Ok(self.v.truthy())
    }
    pub fn is_none(&self, _: Python<'_>) -> bool {
        matches!(self.v, Obj::None)
    }
    pub fn extract<R: FromObj>(&self, _: Python<'_>) -> PyResult<R> {
        R::from_obj(&self.v).ok_or_else(|| PyErr("wrong type".into()))
    }
    pub fn bind<'a>(&self, py: Python<'a>) -> Bound<'a, T> {
        self.clone_ref(py).into()
    }
    pub fn into_bound<'a>(self, _: Python<'a>) -> Bound<'a, T> {
        self.into()
    }
    pub fn clone_ref(&self, _: Python<'_>) -> Self {
        Py { f: self.f.clone(), v: self.v.clone(), p: std::marker::PhantomData }
    }
}
pub trait FromObj: Sized {
    fn from_obj(o: &Obj) -> Option<Self>;
}
impl FromObj for bool {
    fn from_obj(o: &Obj) -> Option<bool> {
        match o {
            Obj::Bool(b) => Some(*b),
            _ => None,
        }
    }
}

pub struct PyErr(pub String);
pub type PyResult<T> = Result<T, PyErr>;
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for PyErr {}
impl From<std::io::Error> for PyErr {
    fn from(_: std::io::Error) -> PyErr {
        PyErr("io".into())
    }
}
impl From<std::convert::Infallible> for PyErr {
    fn from(e: std::convert::Infallible) -> PyErr {
        match e {}
    }
}
pub mod exceptions {
    use super::PyErr;
    macro_rules! exc { ($($n:ident),*) => { $(pub struct $n; impl $n { pub fn new_err<S: Into<String>>(s: S) -> PyErr { PyErr(s.into()) } })* } }
    exc!(PyException, PyValueError, PyOSError, PyIOError, PyRuntimeError, PyKeyError, PyTypeError, PyFileNotFoundError, PyIndexError, PyPermissionError);
}
/// an object and the interpreter
pub struct Bound<'a, T>(Py<T>, std::marker::PhantomData<&'a ()>);
impl<T> From<Py<T>> for Bound<'_, T> {
    fn from(p: Py<T>) -> Self {
        Bound(p, std::marker::PhantomData)
    }
}
impl<'a, T> Bound<'a, T> {
    pub fn call1<A: ToObj>(&self, args: (A,)) -> PyResult<Bound<'a, PyAny>> {
        Python::attach(|py| self.0.call1(py, args)).map(Into::into)
    }
    pub fn is_truthy(&self) -> PyResult<bool> {
        Ok(self.0.v.truthy())
    }
    pub fn is_none(&self) -> bool {
        matches!(self.0.v, Obj::None)
    }
    pub fn extract<R: FromObj>(&self) -> PyResult<R> {
        Python::attach(|py| self.0.extract(py))
    }
    pub fn py(&self) -> Python<'a> {
        Python(std::marker::PhantomData)
    }
    pub fn unbind(self) -> Py<T> {
        self.0
    }
}
pub struct PyModule;
pub mod prelude {
    pub use crate::{Bound, Py, PyAny, PyErr, PyModule, PyObject, PyResult, Python};
    pub use stub_macros::{pyclass, pyfunction, pymethods, pymodule};
}
pub use stub_macros::{pyclass, pyfunction, pymethods, pymodule};
