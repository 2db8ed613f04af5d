#![allow(warnings)]
//! A model of pyo3: Python values, conversions with pyo3's rules, and classes callable by name.
//! What it leaves out is the interpreter.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt;

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

#[derive(Clone, Debug, PartialEq)]
pub enum Obj { None, Bool(bool), Int(i128), Float(f64), Str(String), List(Vec<Obj>), Tuple(Vec<Obj>) }

#[derive(Clone, Debug)]
pub struct PyErr { pub kind: &'static str, pub msg: String }
impl PyErr { pub fn new(kind: &'static str, msg: &str) -> PyErr { PyErr { kind, msg: msg.into() } } }
impl fmt::Display for PyErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.kind) } }
impl std::error::Error for PyErr {}
pub type PyResult<T> = Result<T, PyErr>;

#[derive(Clone, Copy)]
pub struct Python<'py>(std::marker::PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn token() -> Python<'py> { Python(std::marker::PhantomData) }
    pub fn allow_threads<T, F: FnOnce() -> T>(self, f: F) -> T { f() }
    pub fn with_gil<R, F: for<'p> FnOnce(Python<'p>) -> R>(f: F) -> R { f(Python::token()) }
}

pub trait FromPy<'a>: Sized { fn from_py(o: &'a Obj) -> PyResult<Self>; }
fn wrong<T>() -> PyResult<T> { Err(PyErr::new("TypeError", "wrong type")) }
impl<'a> FromPy<'a> for bool { fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Bool(b) => Ok(*b), _ => wrong() } } }
macro_rules! ints { ($($t:ty)*) => { $(
    impl<'a> FromPy<'a> for $t {
        fn from_py(o: &'a Obj) -> PyResult<Self> {
            match o {
                Obj::Int(x) => if *x < <$t>::MIN as i128 || *x > <$t>::MAX as i128 { Err(PyErr::new("OverflowError", "out of range")) } else { Ok(*x as $t) },
                Obj::Bool(b) => Ok(*b as $t),
                _ => wrong(),
            }
        }
    }
)* } }
ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
impl<'a> FromPy<'a> for f64 { fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Float(x) => Ok(*x), Obj::Int(x) => Ok(*x as f64), _ => wrong() } } }
impl<'a> FromPy<'a> for &'a str { fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Str(s) => Ok(s.as_str()), _ => wrong() } } }
impl<'a> FromPy<'a> for String { fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Str(s) => Ok(s.clone()), _ => wrong() } } }
impl<'a, T: FromPy<'a>> FromPy<'a> for Option<T> { fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::None => Ok(None), o => Ok(Some(T::from_py(o)?)) } } }
impl<'a, T: FromPy<'a>> FromPy<'a> for Vec<T> {
    fn from_py(o: &'a Obj) -> PyResult<Self> {
        match o {
            Obj::List(v) | Obj::Tuple(v) => { let mut out = Vec::with_capacity(v.len()); for x in v { out.push(T::from_py(x)?); } Ok(out) }
            _ => wrong(),
        }
    }
}
impl<'a, A: FromPy<'a>, B: FromPy<'a>> FromPy<'a> for (A, B) {
    fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Tuple(v) if v.len() == 2 => Ok((A::from_py(&v[0])?, B::from_py(&v[1])?)), _ => wrong() } }
}

impl<'a, A: FromPy<'a>, B: FromPy<'a>, C: FromPy<'a>> FromPy<'a> for (A, B, C) {
    fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Tuple(v) if v.len() == 3 => Ok((A::from_py(&v[0])?, B::from_py(&v[1])?, C::from_py(&v[2])?)), _ => wrong() } }
}
impl<'a> FromPy<'a> for f32 { fn from_py(o: &'a Obj) -> PyResult<Self> { Ok(f64::from_py(o)? as f32) } }
impl<'a> FromPy<'a> for std::borrow::Cow<'a, str> { fn from_py(o: &'a Obj) -> PyResult<Self> { match o { Obj::Str(s) => Ok(std::borrow::Cow::Borrowed(s.as_str())), _ => wrong() } } }

pub trait IntoPy { fn into_py(self) -> Obj; }
impl IntoPy for () { fn into_py(self) -> Obj { Obj::None } }
impl IntoPy for bool { fn into_py(self) -> Obj { Obj::Bool(self) } }
macro_rules! out { ($($t:ty)*) => { $( impl IntoPy for $t { fn into_py(self) -> Obj { Obj::Int(self as i128) } } )* } }
out!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize u128 i128);
impl IntoPy for f64 { fn into_py(self) -> Obj { Obj::Float(self) } }
impl IntoPy for String { fn into_py(self) -> Obj { Obj::Str(self) } }
impl IntoPy for &str { fn into_py(self) -> Obj { Obj::Str(self.to_string()) } }
impl<T: IntoPy> IntoPy for Option<T> { fn into_py(self) -> Obj { match self { Some(x) => x.into_py(), None => Obj::None } } }
impl<T: IntoPy> IntoPy for Vec<T> { fn into_py(self) -> Obj { let mut out = Vec::with_capacity(self.len()); for x in self { out.push(x.into_py()); } Obj::List(out) } }
impl IntoPy for f32 { fn into_py(self) -> Obj { Obj::Float(self as f64) } }
impl IntoPy for &String { fn into_py(self) -> Obj { Obj::Str(self.clone()) } }
impl IntoPy for std::borrow::Cow<'_, str> { fn into_py(self) -> Obj { Obj::Str(self.into_owned()) } }
impl IntoPy for Obj { fn into_py(self) -> Obj { self } }
impl<T: IntoPy, S> IntoPy for HashSet<T, S> { fn into_py(self) -> Obj { let mut out = Vec::new(); for x in self { out.push(x.into_py()); } Obj::List(out) } }
impl<A: IntoPy, B: IntoPy, C: IntoPy> IntoPy for (A, B, C) { fn into_py(self) -> Obj { Obj::Tuple(vec![self.0.into_py(), self.1.into_py(), self.2.into_py()]) } }
impl<A: IntoPy, B: IntoPy> IntoPy for (A, B) { fn into_py(self) -> Obj { Obj::Tuple(vec![self.0.into_py(), self.1.into_py()]) } }

pub fn argument<'a>(args: &'a [Obj], kwargs: &'a [(&str, Obj)], pos: usize, name: &str) -> Option<&'a Obj> {
    if pos < args.len() { return Some(&args[pos]); }
    for (n, o) in kwargs { if *n == name { return Some(o); } }
    None
}

pub trait Named { const NAME: &'static str; }
pub trait Methods: Sized {
    fn py_new(args: &[Obj], kwargs: &[(&str, Obj)]) -> PyResult<Self>;
    fn py_call(&mut self, name: &str, args: &[Obj], kwargs: &[(&str, Obj)]) -> PyResult<Obj>;
}
pub trait Instance { fn call(&mut self, name: &str, args: &[Obj]) -> PyResult<Obj>; }
impl<T: Methods> Instance for T { fn call(&mut self, name: &str, args: &[Obj]) -> PyResult<Obj> { self.py_call(name, args, &[]) } }
type New = fn(&[Obj], &[(&str, Obj)]) -> PyResult<Box<dyn Instance>>;
fn make<T: Methods + 'static>(args: &[Obj], kwargs: &[(&str, Obj)]) -> PyResult<Box<dyn Instance>> { match T::py_new(args, kwargs) { Ok(x) => Ok(Box::new(x)), Err(e) => Err(e) } }

pub mod types {
    use super::*;
    pub struct PyModule { pub name: &'static str, pub classes: RefCell<Vec<(&'static str, New)>>, pub modules: RefCell<Vec<&'static PyModule>> }
    impl PyModule {
        pub fn new<'p>(_py: Python<'p>, name: &'static str) -> PyResult<&'static PyModule> { Ok(PyModule::root(name)) }
        pub fn root(name: &'static str) -> &'static PyModule { Box::leak(Box::new(PyModule { name, classes: RefCell::new(Vec::new()), modules: RefCell::new(Vec::new()) })) }
        pub fn add_class<T: Named + Methods + 'static>(&self) -> PyResult<()> { self.classes.borrow_mut().push((T::NAME, make::<T>)); Ok(()) }
        pub fn add_submodule(&self, m: &'static PyModule) -> PyResult<()> { self.modules.borrow_mut().push(m); Ok(()) }
        /// A class by the name of its submodule and its own.
        pub fn class(&self, module: &str, name: &str) -> Option<New> {
            for m in self.modules.borrow().iter() { if m.name == module { for (n, f) in m.classes.borrow().iter() { if *n == name { return Some(*f); } } } }
            None
        }
    }
}
pub mod exceptions {
    macro_rules! exceptions { ($($n:ident $t:expr),*) => { $(
        pub struct $n;
        impl $n { pub fn new_err<S: ToString>(s: S) -> crate::PyErr { crate::PyErr { kind: $t, msg: s.to_string() } } }
    )* } }
    exceptions!(PyValueError "ValueError", PyTypeError "TypeError", PyRuntimeError "RuntimeError", PyKeyError "KeyError", PyIndexError "IndexError", PyException "Exception");
}
pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{pyclass, pyfunction, pymethods, pymodule, PyErr, PyResult, Python};
}
