use std::marker::PhantomData;

pub struct FnDef {
    pub name: &'static str,
    pub params: &'static [&'static str],
    pub call: fn(&[f64]) -> f64,
    pub ext: Option<fn(&[f64]) -> f64>,
}
pub struct MethDef {
    pub name: &'static str,
    pub params: &'static [&'static str],
    pub call: fn(*const (), &[f64]) -> f64,
}
pub struct StructDef {
    pub name: &'static str,
    pub params: &'static [&'static str],
    pub size: usize,
    pub shareable: fn() -> bool,
    pub make: fn(&[f64]) -> *mut (),
    pub free: fn(*mut ()),
    pub methods: &'static [MethDef],
}

pub struct Probe<T>(pub PhantomData<T>);
pub trait NotShareable {
    fn get(&self) -> bool {
        false
    }
}
impl<T> NotShareable for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    pub fn get(&self) -> bool {
        true
    }
}
#[macro_export]
macro_rules! shareable {
    ($t:ty) => {
        || {
            #[allow(unused_imports)]
            use $crate::table::NotShareable;
            (&$crate::table::Probe::<$t>(std::marker::PhantomData)).get()
        }
    };
}
