//! Model of the part of `v8` that the delivery of results and of HTTP messages uses: values are plain
//! data; texts are known by a hash of their (concrete) bytes; objects by number; what is called with
//! what is recorded, and a called function runs arbitrary JavaScript (`crate::env::js_runs`).
#![allow(static_mut_refs)]
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use vk::any::any_bool;
use vk::ensures;
use vk::model::string::String as VString;

pub const UNDEF: u8 = 1; pub const NULL: u8 = 2; pub const BOOL: u8 = 3; pub const NUM: u8 = 4; pub const STR: u8 = 5;
pub const OBJ: u8 = 6; pub const FUNC: u8 = 7; pub const ERR: u8 = 8; pub const ABUF: u8 = 9; pub const U8A: u8 = 10; pub const PROMISE: u8 = 11; pub const MAP: u8 = 12; pub const ARR: u8 = 13;
#[derive(Clone, Copy)]
pub struct Val { pub kind: u8, pub b: bool, pub num: f64, pub u: u32, pub key: u32, pub s: *const u8, pub n: usize, pub id: u32, pub fails: bool }
pub const UNDEFINED: Val = Val { kind: UNDEF, b: false, num: 0.0, u: 0, key: 0, s: std::ptr::null(), n: 0, id: 0, fails: false };
pub fn hash(b: &[u8]) -> u32 {
    let (p, n) = (b.as_ptr(), b.len());
    let r8 = |i: usize| unsafe { (p.add(i) as *const u64).read_unaligned() };
    let r4 = |i: usize| unsafe { (p.add(i) as *const u32).read_unaligned() as u64 };
    let mut h = n as u64 ^ 0x811c9dc5;
    let mut mix = |x: u64| { h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15); h ^= h >> 29; };
    if n >= 8 { let mut i = 0; while i + 8 < n { mix(r8(i)); i += 8; } mix(r8(n - 8)); }
    else if n >= 4 { mix(r4(0)); mix(r4(n - 4)); }
    else { let mut i = 0; while i < n { mix(unsafe { *p.add(i) } as u64); i += 1; } }
    (h ^ h >> 32) as u32
}
pub fn vtext(t: &str) -> Val { Val { kind: STR, key: hash(t.as_bytes()), s: t.as_ptr(), n: t.len(), ..UNDEFINED } }
pub fn vnum(x: f64) -> Val { Val { kind: NUM, num: x, ..UNDEFINED } }
pub fn vobj(kind: u8, id: u32) -> Val { Val { kind, id, ..UNDEFINED } }
impl Val { pub fn is_text(&self, t: &str) -> bool { self.kind == STR && self.key == hash(t.as_bytes()) && self.n == t.len() } }

pub const NPROP: usize = 24;
#[derive(Clone, Copy)]
pub struct Prop { pub on: bool, pub obj: u32, pub key: u32, pub v: Val, pub throws: bool }
const NOPROP: Prop = Prop { on: false, obj: 0, key: 0, v: UNDEFINED, throws: false };
#[derive(Clone, Copy)]
pub struct Call { pub f: u32, pub recv: Val, pub argc: usize, pub a: [Val; 3] }
pub struct Heap {
    pub magic: u32,
    pub props: [Prop; NPROP],
    pub n: usize,
    pub objs: u32,
    /// function calls: how many, the last one
    pub calls: u32,
    pub call: Call,
    pub news: u32,
    pub made: Call,
    pub buf_id: u32,
    pub microtasks: u32,
    pub pumps: u32,
}
pub static mut HEAP: Heap = Heap { magic: 0x5EED_77, props: [NOPROP; NPROP], n: 0, objs: 100, calls: 0, call: Call { f: 0, recv: UNDEFINED, argc: 0, a: [UNDEFINED; 3] }, news: 0, made: Call { f: 0, recv: UNDEFINED, argc: 0, a: [UNDEFINED; 3] }, buf_id: 0, microtasks: 0, pumps: 0 };
pub fn heap() -> &'static mut Heap { unsafe { &mut *(&raw mut HEAP) } }
pub fn vset(obj: u32, key: u32, v: Val, throws: bool) {
    let h = heap();
    for i in 0..NPROP { if i < h.n && h.props[i].obj == obj && h.props[i].key == key { h.props[i].v = v; h.props[i].throws = throws; return; } }
    assert!(h.n < NPROP, "MODEL: too many properties");
    h.props[h.n] = Prop { on: true, obj, key, v, throws };
    h.n += 1;
}
pub fn vprop(obj: u32, key: u32) -> Prop {
    let h = heap();
    let mut r = NOPROP;
    for i in 0..NPROP { if i < h.n && h.props[i].obj == obj && h.props[i].key == key { r = h.props[i]; } }
    r
}
pub fn global(key: &str, v: Val, throws: bool) { vset(crate::env::CTX, hash(key.as_bytes()), v, throws) }
pub fn prop(obj: u32, key: &str) -> Val { vprop(obj, hash(key.as_bytes())).v }
pub fn nprops(obj: u32) -> usize { let h = heap(); let mut c = 0; for i in 0..NPROP { if i < h.n && h.props[i].obj == obj { c += 1; } } c }

// ---- isolates, scopes --------------------------------------------------------------------------
pub struct Platform;
pub struct SharedRef<T>(pub PhantomData<T>);
pub struct UniqueRef<T>(pub T);
pub struct IsolateHandle { pub iso: u32 }
impl Clone for IsolateHandle { fn clone(&self) -> Self { IsolateHandle { iso: self.iso } } }
pub struct Isolate { pub id: u32 }
pub type OwnedIsolate = Isolate;
pub trait HasIso { fn iso(&self) -> u32; }
impl HasIso for Isolate { fn iso(&self) -> u32 { self.id } }
impl<C> HasIso for PinScope<'_, '_, C> { fn iso(&self) -> u32 { self.iso } }
impl<C> HasIso for HandleScope<'_, C> { fn iso(&self) -> u32 { self.p.iso } }
impl<P> HasIso for ContextScope<'_, P> { fn iso(&self) -> u32 { self.p.iso } }
impl Isolate {
    pub fn is_execution_terminating(&self) -> bool { any_bool() }
    pub fn thread_safe_handle(&self) -> IsolateHandle { IsolateHandle { iso: self.id } }
    pub fn perform_microtask_checkpoint(&mut self) { heap().microtasks += 1; }
}
impl Platform {
    pub fn pump_message_loop<I: HasIso>(_p: &'static SharedRef<Platform>, i: &I, wait: bool) -> bool {
        ensures!("D01.pump: V8's own tasks of this isolate are run, without waiting for more", i.iso() == crate::env::ISO && !wait);
        heap().pumps += 1;
        heap().pumps < 2 && any_bool()
    }
}
pub struct PinScope<'s, 'i, C = Context> { pub iso: u32, pub ctx: u32, _p: PhantomData<(&'s (), &'i (), C)> }
impl<'s, 'i> PinScope<'s, 'i> {
    pub fn get_current_context(&self) -> Local<'s, Context> { loc(vobj(OBJ, self.ctx)) }
    fn at(&self) {
        ensures!("D01.scope: V8 is entered on this request's isolate and context, under its lock", self.iso == crate::env::ISO && self.ctx == crate::env::CTX && crate::env::v8_ok());
    }
    pub fn perform_microtask_checkpoint(&mut self) { heap().microtasks += 1; crate::env::js_runs(); }
    pub fn has_caught(&self) -> bool { any_bool() }
    pub fn exception(&self) -> Option<Local<'s, Value>> { if any_bool() { Some(loc(vobj(ERR, 9))) } else { None } }
    pub fn throw_exception(&self, _e: Local<'_, Value>) {}
}
pub struct HandleScope<'i, C = Context> { p: PinScope<'i, 'i, C> }
impl<'i> HandleScope<'i> {
    pub fn new(i: &'i mut Isolate) -> Self {
        ensures!("D01.locked: V8 is entered only under the isolate's lock", i.id == crate::env::ISO && crate::env::v8_ok());
        HandleScope { p: PinScope { iso: i.id, ctx: 0, _p: PhantomData } }
    }
    pub fn init(self: Pin<&mut Self>) -> HandleScope<'i> { HandleScope { p: PinScope { iso: self.p.iso, ctx: 0, _p: PhantomData } } }
}
impl<'i> Deref for HandleScope<'i> { type Target = PinScope<'i, 'i>; fn deref(&self) -> &PinScope<'i, 'i> { &self.p } }
impl<'i> DerefMut for HandleScope<'i> { fn deref_mut(&mut self) -> &mut PinScope<'i, 'i> { &mut self.p } }
pub struct ContextScope<'s, P> { p: PinScope<'s, 's>, _p: PhantomData<&'s mut P> }
impl<'s, 'i> ContextScope<'s, HandleScope<'i>> {
    pub fn new(s: &'s mut HandleScope<'i>, c: Local<'_, Context>) -> Self { ContextScope { p: PinScope { iso: s.p.iso, ctx: c.v.id, _p: PhantomData }, _p: PhantomData } }
}
impl<'s, P> Deref for ContextScope<'s, P> { type Target = PinScope<'s, 's>; fn deref(&self) -> &PinScope<'s, 's> { &self.p } }
impl<'s, P> DerefMut for ContextScope<'s, P> { fn deref_mut(&mut self) -> &mut PinScope<'s, 's> { &mut self.p } }
pub struct TryCatch<'s, P> { p: PinScope<'s, 's>, _p: PhantomData<&'s mut P> }
impl<'s, P: Deref<Target = PinScope<'s, 's>>> TryCatch<'s, P> {
    pub fn new(s: &'s mut P) -> Self { TryCatch { p: PinScope { iso: s.iso, ctx: s.ctx, _p: PhantomData }, _p: PhantomData } }
}
impl<'s, P> TryCatch<'s, P> { pub fn init(self: Pin<&mut Self>) -> PinScope<'s, 's> { PinScope { iso: self.p.iso, ctx: self.p.ctx, _p: PhantomData } } }

// ---- handles -----------------------------------------------------------------------------------
pub struct Global<T> { pub id: u32, pub p: PhantomData<T> }
impl<T> Clone for Global<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Global<T> {}
impl<T> Default for Global<T> { fn default() -> Self { Global { id: 0, p: PhantomData } } }
pub struct Local<'s, T> { pub v: Val, _p: PhantomData<(&'s (), T)> }
impl<'s, T> Clone for Local<'s, T> { fn clone(&self) -> Self { *self } }
impl<'s, T> Copy for Local<'s, T> {}
pub fn loc<'s, T>(v: Val) -> Local<'s, T> { Local { v, _p: PhantomData } }
pub trait OfGlobal { const KIND: u8; }
impl OfGlobal for Context { const KIND: u8 = OBJ; }
impl OfGlobal for Function { const KIND: u8 = FUNC; }
impl<'s, T: OfGlobal> Local<'s, T> {
    pub fn new(s: &PinScope<'s, '_>, g: &Global<T>) -> Local<'s, T> {
        ensures!("D01.entered: a handle is opened on this request's isolate, under its lock", s.iso == crate::env::ISO && crate::env::v8_ok());
        loc(vobj(T::KIND, g.id))
    }
}
/// the data behind a handle: `T` is a transparent `Val`
impl<'s, T> Deref for Local<'s, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*(&self.v as *const Val as *const T) } } }
#[derive(Debug)]
pub struct DataError;
macro_rules! ty {
    ($($t:ident -> $up:ident : $ok:expr;)*) => {$(
        #[repr(transparent)] pub struct $t(Val);
        impl Deref for $t { type Target = $up; fn deref(&self) -> &$up { unsafe { &*(self as *const $t as *const $up) } } }
        impl<'s> From<Local<'s, $t>> for Local<'s, Value> { fn from(l: Local<'s, $t>) -> Self { loc(l.v) } }
        impl<'s> TryFrom<Local<'s, Value>> for Local<'s, $t> { type Error = DataError; fn try_from(l: Local<'s, Value>) -> Result<Self, DataError> { let k = l.v.kind; let f: fn(u8) -> bool = $ok; if f(k) { Ok(loc(l.v)) } else { Err(DataError) } } }
    )*};
}
#[repr(transparent)] pub struct Value(Val);
#[repr(transparent)] pub struct Context(Val);
ty! {
    Object -> Value: |k| k >= OBJ;
    Function -> Object: |k| k == FUNC;
    ArrayBuffer -> Object: |k| k == ABUF;
    Uint8Array -> Object: |k| k == U8A;
    Map -> Object: |k| k == MAP;
    Array -> Object: |k| k == ARR;
    Primitive -> Value: |k| k <= STR;
    String -> Primitive: |k| k == STR;
    Boolean -> Primitive: |k| k == BOOL;
    Number -> Primitive: |k| k == NUM;
}
macro_rules! up { ($($a:ident => $($b:ident),*;)*) => {$($( impl<'s> From<Local<'s, $a>> for Local<'s, $b> { fn from(l: Local<'s, $a>) -> Self { loc(l.v) } } )*)*} }
up! { Function => Object; Uint8Array => Object; ArrayBuffer => Object; Map => Object; Array => Object; }
pub fn undefined<'s>(_s: &PinScope<'s, '_>) -> Local<'s, Primitive> { loc(UNDEFINED) }
pub fn null<'s>(_s: &PinScope<'s, '_>) -> Local<'s, Primitive> { loc(Val { kind: NULL, ..UNDEFINED }) }

impl Value {
    pub fn is_undefined(&self) -> bool { self.0.kind == UNDEF }
    pub fn is_null(&self) -> bool { self.0.kind == NULL }
    pub fn is_null_or_undefined(&self) -> bool { self.0.kind == NULL || self.0.kind == UNDEF }
    pub fn is_string(&self) -> bool { self.0.kind == STR }
    pub fn is_number(&self) -> bool { self.0.kind == NUM }
    pub fn is_true(&self) -> bool { self.0.kind == BOOL && self.0.b }
    pub fn is_object(&self) -> bool { self.0.kind >= OBJ }
    pub fn is_function(&self) -> bool { self.0.kind == FUNC }
    pub fn is_promise(&self) -> bool { self.0.kind == PROMISE }
    pub fn is_array(&self) -> bool { self.0.kind == ARR }
    pub fn is_map(&self) -> bool { self.0.kind == MAP }
    pub fn boolean_value(&self, _s: &PinScope<'_, '_>) -> bool { self.0.b }
    /// null and undefined have none
    pub fn to_object<'s>(&self, _s: &PinScope<'s, '_>) -> Option<Local<'s, Object>> { if self.is_null_or_undefined() || self.0.fails { None } else { Some(loc(self.0)) } }
    pub fn uint32_value(&self, _s: &PinScope<'_, '_>) -> Option<u32> { if self.0.fails { None } else { Some(self.0.u) } }
    pub fn to_string<'s>(&self, _s: &PinScope<'s, '_>) -> Option<Local<'s, String>> { if self.0.fails { None } else { Some(loc(Val { kind: STR, ..self.0 })) } }
    pub fn to_rust_string_lossy(&self, s: &PinScope<'_, '_>) -> VString { match self.to_string(s) { Some(x) => x.to_rust_string_lossy(s), None => VString::new() } }
}
impl String {
    pub fn new<'s>(_s: &PinScope<'s, '_>, t: &str) -> Option<Local<'s, String>> { Some(loc(vtext(t))) }
    pub fn to_rust_string_lossy(&self, _s: &PinScope<'_, '_>) -> VString { if self.0.s.is_null() { VString::new() } else { VString::raw(self.0.s, self.0.n) } }
}
impl Boolean { pub fn new<'s>(_s: &PinScope<'s, '_>, b: bool) -> Local<'s, Boolean> { loc(Val { kind: BOOL, b, ..UNDEFINED }) } }
impl Number { pub fn new<'s>(_s: &PinScope<'s, '_>, num: f64) -> Local<'s, Number> { loc(vnum(num)) } }
pub struct Exception;
impl Exception {
    pub fn error<'s>(_s: &PinScope<'s, '_>, m: Local<'_, String>) -> Local<'s, Value> { loc(Val { kind: ERR, id: 1, ..m.v }) }
    pub fn type_error<'s>(_s: &PinScope<'s, '_>, m: Local<'_, String>) -> Local<'s, Value> { loc(Val { kind: ERR, id: 2, ..m.v }) }
}
impl Context { pub fn global<'s>(&self, _s: &PinScope<'s, '_>) -> Local<'s, Object> { loc(vobj(OBJ, self.0.id)) } }
impl Object {
    pub fn new<'s>(_s: &PinScope<'s, '_>) -> Local<'s, Object> { let h = heap(); h.objs += 1; loc(vobj(OBJ, h.objs)) }
    pub fn set(&self, s: &PinScope<'_, '_>, k: Local<'_, Value>, v: Local<'_, Value>) -> Option<bool> { s.at(); vset(self.0.id, k.v.key, v.v, false); Some(true) }
    pub fn get<'s>(&self, s: &PinScope<'s, '_>, k: Local<'_, Value>) -> Option<Local<'s, Value>> { s.at(); let p = vprop(self.0.id, k.v.key); if p.throws { None } else { Some(loc(p.v)) } }
}
impl Function {
    pub fn call<'s>(&self, s: &PinScope<'s, '_>, recv: Local<'_, Value>, args: &[Local<'_, Value>]) -> Option<Local<'s, Value>> {
        s.at();
        let h = heap();
        h.calls += 1;
        h.call.f = self.0.id;
        h.call.recv = recv.v;
        h.call.argc = args.len();
        for i in 0..3 { if i < args.len() { h.call.a[i] = args[i].v; } }
        crate::env::called(self.0.id).map(|v| loc(v))
    }
    pub fn new_instance<'s>(&self, s: &PinScope<'s, '_>, args: &[Local<'_, Value>]) -> Option<Local<'s, Object>> {
        s.at();
        let h = heap();
        h.news += 1;
        h.made.f = self.0.id;
        h.made.argc = args.len();
        for i in 0..3 { if i < args.len() { h.made.a[i] = args[i].v; } }
        crate::env::constructed().map(|v| loc(v))
    }
}
// ---- bytes -------------------------------------------------------------------------------------
/// contents of a buffer, known by a number
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Bin { pub id: u32, pub n: usize }
impl Bin {
    pub fn new() -> Self { Bin { id: 0, n: 0 } }
    pub fn zeroed(n: usize) -> Self { Bin { id: 0, n } }
    pub fn to_vec(&self) -> Bin { *self }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn as_mut_slice(&mut self) -> &mut Self { self }
}
impl Bin { pub fn len(&self) -> usize { self.n } pub fn is_empty(&self) -> bool { self.n == 0 } }
pub struct BackingStore(Bin);
impl From<UniqueRef<BackingStore>> for SharedRef2 { fn from(u: UniqueRef<BackingStore>) -> Self { SharedRef2(u.0.0) } }
pub struct SharedRef2(Bin);
impl UniqueRef<BackingStore> { pub fn make_shared(self) -> SharedRef2 { SharedRef2(self.0.0) } }
impl ArrayBuffer {
    pub fn new_backing_store_from_vec(v: Bin) -> UniqueRef<BackingStore> { UniqueRef(BackingStore(v)) }
    pub fn with_backing_store<'s>(_s: &PinScope<'s, '_>, b: &SharedRef2) -> Local<'s, ArrayBuffer> { loc(Val { kind: ABUF, id: b.0.id, n: b.0.n, ..UNDEFINED }) }
}

impl Uint8Array {
    pub fn new<'s>(s: &PinScope<'s, '_>, b: Local<'_, ArrayBuffer>, off: usize, len: usize) -> Option<Local<'s, Uint8Array>> { s.at(); if off > b.v.n || len > b.v.n - off { None } else { Some(loc(Val { kind: U8A, id: b.v.id, u: off as u32, n: len, ..UNDEFINED })) } }
    pub fn byte_length(&self) -> usize { self.0.n }
    /// copies as much as fits
    pub fn copy_contents(&self, to: &mut Bin) -> usize { if to.n == self.0.n { to.id = self.0.id; } else { to.id = 0; } if to.n < self.0.n { to.n } else { self.0.n } }
}
pub fn elem(i: u32) -> u32 { 0x4000_0000 + i }
impl Map { pub fn as_array<'s>(&self, s: &PinScope<'s, '_>) -> Local<'s, Array> { s.at(); loc(Val { kind: ARR, ..self.0 }) } }
impl Array {
    pub fn length(&self) -> u32 { self.0.u }
    pub fn get_index<'s>(&self, s: &PinScope<'s, '_>, i: u32) -> Option<Local<'s, Value>> { s.at(); let p = vprop(self.0.id, elem(i)); if p.throws { None } else { Some(loc(p.v)) } }
}
#[derive(Default)]
pub struct GetPropertyNamesArgs;
impl Object {
    /// the names are kept as an array numbered 1000 above the object
    pub fn get_own_property_names<'s>(&self, s: &PinScope<'s, '_>, _: GetPropertyNamesArgs) -> Option<Local<'s, Array>> { s.at(); let p = vprop(self.0.id + 1000, 7); if p.throws { None } else { Some(loc(Val { kind: ARR, id: self.0.id + 1000, u: p.v.u, ..UNDEFINED })) } }
}
