#![allow(dead_code, unused)]
use daab::rc;
use daab::arc;
use daab::boxed;
use daab::prelude::*;
use daab::blueprint::Promise;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;
use std::any::Any;
use std::cell::Cell;

#[derive(Debug)]
pub struct Leaf(u8);
impl rc::Builder for Leaf {
    type Artifact = u8;
    type DynState = String;
    type Err = u16;
    fn build(&self, r: &mut rc::Resolver<String>) -> Result<Rc<u8>, u16> { Ok(Rc::new(self.0)) }
    fn init_dyn_state(&self) -> String { String::new() }
}
#[derive(Debug)]
pub struct ALeaf(u8);
impl arc::Builder for ALeaf {
    type Artifact = u8;
    type DynState = String;
    type Err = u16;
    fn build(&self, r: &mut arc::Resolver<String>) -> Result<Arc<u8>, u16> { Ok(Arc::new(self.0)) }
    fn init_dyn_state(&self) -> String { String::new() }
}
#[derive(Debug)]
pub struct BLeaf(u8);
impl boxed::Builder for BLeaf {
    type Artifact = u8;
    type DynState = String;
    type Err = u16;
    fn build(&self, r: &mut boxed::Resolver<String>) -> Result<Box<u8>, u16> { Ok(Box::new(self.0)) }
    fn init_dyn_state(&self) -> String { String::new() }
}
pub fn is_send<T: Send + ?Sized>() {}
pub fn is_sync<T: Sync + ?Sized>() {}
pub fn is_clone<T: Clone>() {}
