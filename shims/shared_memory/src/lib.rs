//! Offline stand-in for `shared_memory`: named buffers of this process.
use std::{collections::HashMap, sync::{Arc, Mutex, OnceLock}};
type Buf = Arc<(Mutex<Vec<u64>>, usize)>;
fn reg() -> &'static Mutex<HashMap<String, Buf>> { static R: OnceLock<Mutex<HashMap<String, Buf>>> = OnceLock::new(); R.get_or_init(Default::default) }
#[derive(Default)]
pub struct ShmemConf { size: usize, name: String, force: bool }
pub struct Shmem { b: Buf }
#[derive(Debug)]
pub enum ShmemError { LinkExists, LinkDoesNotExist, MapSizeZero }
impl std::fmt::Display for ShmemError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for ShmemError {}
impl ShmemConf {
    pub fn new() -> Self { Self::default() }
    pub fn size(mut self, n: usize) -> Self { self.size = n; self }
    pub fn flink(mut self, n: &str) -> Self { self.name = n.into(); self }
    pub fn force_create_flink(mut self) -> Self { self.force = true; self }
    pub fn create(self) -> Result<Shmem, ShmemError> {
        if self.size == 0 { return Err(ShmemError::MapSizeZero) }
        let mut r = reg().lock().unwrap();
        if r.contains_key(&self.name) && !self.force { return Err(ShmemError::LinkExists) }
        let b: Buf = Arc::new((Mutex::new(vec![0; self.size.div_ceil(8)]), self.size));
        r.insert(self.name, b.clone());
        Ok(Shmem { b })
    }
    pub fn open(self) -> Result<Shmem, ShmemError> { reg().lock().unwrap().get(&self.name).map(|b| Shmem { b: b.clone() }).ok_or(ShmemError::LinkDoesNotExist) }
}
impl Shmem {
    pub fn len(&self) -> usize { self.b.1 }
    pub fn as_ptr(&self) -> *mut u8 { self.b.0.lock().unwrap().as_mut_ptr() as *mut u8 }
}
