//! Model of the part of `v8` that native functions use. Values are plain data; byte contents are
//! terms (vk::model::vbytes); what natives are registered, thrown and returned is recorded.
#![allow(static_mut_refs, dead_code, non_upper_case_globals)]
use std::ffi::c_void;
use std::marker::PhantomData;
use std::ops::Deref;
use std::ptr::NonNull;
use vk::model::string::String as VString;
use vk::model::vbytes::{self, mem, term_of, Vec, VCells, GARBAGE, ZERO};

pub const UNDEF: u8 = 1; pub const NULL: u8 = 2; pub const BOOL: u8 = 3; pub const NUM: u8 = 4; pub const STR: u8 = 5;
/// Uint8Array / another integer TypedArray / a float TypedArray / DataView / ArrayBuffer / plain object / function / error / symbol
pub const U8A: u8 = 6; pub const TYPED: u8 = 7; pub const FLOATA: u8 = 8; pub const DVIEW: u8 = 9; pub const ABUF: u8 = 10; pub const OBJ: u8 = 11; pub const FUNC: u8 = 12; pub const ERR: u8 = 13; pub const SYM: u8 = 14;

#[derive(Clone, Copy)]
pub struct Val {
    pub kind: u8,
    pub b: bool,
    pub num: f64,
    pub s: *const u8,
    pub n: usize,
    /// object / function / error number
    pub id: usize,
    /// buffer number, view offset; `n` is the byte length
    pub buf: usize,
    pub off: usize,
    /// contents of the view / text
    pub term: u64,
    /// ToString / ToNumber throws
    pub conv_fails: bool,
}
pub const UNDEFINED: Val = Val { kind: UNDEF, b: false, num: f64::NAN, s: std::ptr::null(), n: 0, id: 0, buf: 0, off: 0, term: GARBAGE, conv_fails: false };

pub const NPROP: usize = 20;
pub const NFUN: usize = 14;
pub type Native = for<'a, 's, 'i> fn(&'a mut PinScope<'s, 'i>, FunctionCallbackArguments<'s>, ReturnValue<'s>);
pub struct Heap {
    pub magic: u64,
    pub ret: Val,
    pub sets: u32,
    pub thrown: u32,
    pub err_kind: usize,
    pub objs: usize,
    pub prop_obj: [usize; NPROP],
    pub prop_key: [(*const u8, usize); NPROP],
    pub prop_val: [Val; NPROP],
    pub props: usize,
    pub funs: usize,
    pub scripts: u32,
}
fn nothing<'a, 's, 'i>(_: &'a mut PinScope<'s, 'i>, _: FunctionCallbackArguments<'s>, _: ReturnValue<'s>) { panic!("MODEL: no such native") }
pub static mut FUNS: [Native; NFUN] = [nothing; NFUN];
pub static mut HEAP: Heap = Heap { magic: 0x5EED_0000_6666_0001, ret: UNDEFINED, sets: 0, thrown: 0, err_kind: 0, objs: 1, prop_obj: [0; NPROP], prop_key: [(std::ptr::null(), 0); NPROP], prop_val: [UNDEFINED; NPROP], props: 0, funs: 0, scripts: 0 };
pub fn heap() -> &'static mut Heap { unsafe { &mut *(&raw mut HEAP) } }

// ---- scopes ------------------------------------------------------------------------------------
pub struct PinScope<'s, 'i, C = Context> { _p: PhantomData<(&'s (), &'i (), C)> }
pub struct Isolate;
impl<'s, 'i> PinScope<'s, 'i> {
    pub fn vp_new() -> Self { PinScope { _p: PhantomData } }
    pub fn get_current_context(&self) -> Local<'s, Context> { loc(UNDEFINED) }
    pub fn throw_exception(&self, e: Local<'s, Value>) -> Local<'s, Value> { let h = heap(); h.thrown += 1; h.err_kind = e.v.id; loc(UNDEFINED) }
}

// ---- handles -----------------------------------------------------------------------------------
pub struct Local<'s, T> { v: Val, _p: PhantomData<(&'s (), T)> }
impl<'s, T> Clone for Local<'s, T> { fn clone(&self) -> Self { *self } }
impl<'s, T> Copy for Local<'s, T> {}
pub fn loc<'s, T>(v: Val) -> Local<'s, T> { Local { v, _p: PhantomData } }
impl<'s, T> Local<'s, T> { pub fn vp(&self) -> &Val { &self.v } }
/// the data behind a handle: `T` is a transparent `Val`
impl<'s, T> Deref for Local<'s, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*(&self.v as *const Val as *const T) } } }
#[derive(Debug)]
pub struct DataError;
macro_rules! ty {
    ($($t:ident -> $up:ident : $ok:expr;)*) => {$(
        #[repr(transparent)] pub struct $t(Val);
        impl Deref for $t { type Target = $up; fn deref(&self) -> &$up { unsafe { &*(self as *const $t as *const $up) } } }
        impl<'s> From<Local<'s, $t>> for Local<'s, Value> { fn from(l: Local<'s, $t>) -> Self { loc(l.v) } }
        impl<'s> TryFrom<Local<'s, Value>> for Local<'s, $t> { type Error = DataError; fn try_from(l: Local<'s, Value>) -> Result<Self, DataError> { let k = l.v.kind; let f: fn(u8) -> bool = $ok; if f(k) { Ok(loc(l.v)) } else { Err(DataError) } } }
    )*};
}
#[repr(transparent)] pub struct Value(Val);
pub fn is_ta(k: u8) -> bool { k == U8A || k == TYPED || k == FLOATA }
ty! {
    Object -> Value: |k| k >= U8A && k <= ERR;
    Function -> Object: |k| k == FUNC;
    ArrayBuffer -> Object: |k| k == ABUF;
    ArrayBufferView -> Object: |k| is_ta(k) || k == DVIEW;
    TypedArray -> ArrayBufferView: |k| is_ta(k);
    Uint8Array -> TypedArray: |k| k == U8A;
    DataView -> ArrayBufferView: |k| k == DVIEW;
    Primitive -> Value: |k| k <= STR || k == SYM;
    Name -> Primitive: |k| k == STR || k == SYM;
    String -> Name: |k| k == STR;
    Boolean -> Primitive: |k| k == BOOL;
    Number -> Primitive: |k| k == NUM;
}
macro_rules! up { ($($a:ident => $($b:ident),*;)*) => {$($( impl<'s> From<Local<'s, $a>> for Local<'s, $b> { fn from(l: Local<'s, $a>) -> Self { loc(l.v) } } )*)*} }
up! { Uint8Array => TypedArray, ArrayBufferView, Object; TypedArray => ArrayBufferView, Object; ArrayBufferView => Object; ArrayBuffer => Object; Function => Object; String => Name; }
macro_rules! down { ($($a:ident -> $b:ident : $ok:expr;)*) => {$( impl<'s> TryFrom<Local<'s, $a>> for Local<'s, $b> { type Error = DataError; fn try_from(l: Local<'s, $a>) -> Result<Self, DataError> { let f: fn(u8) -> bool = $ok; if f(l.v.kind) { Ok(loc(l.v)) } else { Err(DataError) } } } )*} }
down! { ArrayBufferView -> Uint8Array: |k| k == U8A; TypedArray -> Uint8Array: |k| k == U8A; ArrayBufferView -> TypedArray: |k| is_ta(k); }
pub struct Context;

pub fn undefined<'s>(_s: &PinScope<'s, '_>) -> Local<'s, Primitive> { loc(UNDEFINED) }
pub fn null<'s>(_s: &PinScope<'s, '_>) -> Local<'s, Primitive> { loc(Val { kind: NULL, ..UNDEFINED }) }

impl Value {
    pub fn is_undefined(&self) -> bool { self.0.kind == UNDEF }
    pub fn is_null(&self) -> bool { self.0.kind == NULL }
    pub fn is_null_or_undefined(&self) -> bool { self.0.kind == NULL || self.0.kind == UNDEF }
    pub fn is_string(&self) -> bool { self.0.kind == STR }
    pub fn is_number(&self) -> bool { self.0.kind == NUM }
    pub fn is_boolean(&self) -> bool { self.0.kind == BOOL }
    pub fn is_true(&self) -> bool { self.0.kind == BOOL && self.0.b }
    pub fn is_false(&self) -> bool { self.0.kind == BOOL && !self.0.b }
    pub fn is_object(&self) -> bool { self.0.kind >= U8A && self.0.kind <= ERR }
    pub fn is_function(&self) -> bool { self.0.kind == FUNC }
    pub fn is_symbol(&self) -> bool { self.0.kind == SYM }
    pub fn is_array_buffer(&self) -> bool { self.0.kind == ABUF }
    pub fn is_typed_array(&self) -> bool { is_ta(self.0.kind) }
    pub fn is_array_buffer_view(&self) -> bool { is_ta(self.0.kind) || self.0.kind == DVIEW }
    pub fn is_uint8_array(&self) -> bool { self.0.kind == U8A }
    pub fn is_float32_array(&self) -> bool { self.0.kind == FLOATA }
    pub fn is_float64_array(&self) -> bool { false }
    pub fn is_data_view(&self) -> bool { self.0.kind == DVIEW }
    pub fn to_string<'s>(&self, _s: &PinScope<'s, '_>) -> Option<Local<'s, String>> {
        if self.0.conv_fails { return None; }
        Some(loc(Val { kind: STR, ..self.0 }))
    }
    pub fn to_rust_string_lossy(&self, s: &PinScope<'_, '_>) -> VString { match self.to_string(s) { Some(x) => x.to_rust_string_lossy(s), None => VString::new() } }
    pub fn number_value(&self, _s: &PinScope<'_, '_>) -> Option<f64> { if self.0.conv_fails { None } else { Some(self.0.num) } }
    pub fn integer_value(&self, _s: &PinScope<'_, '_>) -> Option<i64> { if self.0.conv_fails { None } else { Some(self.0.num as i64) } }
    pub fn boolean_value(&self, _s: &PinScope<'_, '_>) -> bool { self.0.b }
}
impl String {
    pub fn new<'s>(_s: &PinScope<'s, '_>, t: &str) -> Option<Local<'s, String>> {
        if t.len() > (1 << 29) - 24 { return None; }
        let term = if vbytes::is_cell(t.as_ptr()) { vbytes::term_of_str(t) } else { GARBAGE };
        Some(loc(Val { kind: STR, s: t.as_ptr(), n: t.len(), term, ..UNDEFINED }))
    }
    pub fn empty<'s>(s: &PinScope<'s, '_>) -> Local<'s, String> { Self::new(s, "").unwrap() }
    pub fn to_rust_string_lossy(&self, _s: &PinScope<'_, '_>) -> VString {
        if self.0.term == GARBAGE { VString::raw(self.0.s, self.0.n) } else { vbytes::text(self.0.term, self.0.n) }
    }
    pub fn utf8_length(&self, _s: &PinScope<'_, '_>) -> usize { self.0.n }
    pub fn length(&self) -> usize { self.0.id }
}
impl Boolean { pub fn new<'s>(_s: &PinScope<'s, '_>, b: bool) -> Local<'s, Boolean> { loc(Val { kind: BOOL, b, ..UNDEFINED }) } pub fn is_true(&self) -> bool { self.0.b } }
impl Number { pub fn new<'s>(_s: &PinScope<'s, '_>, num: f64) -> Local<'s, Number> { loc(Val { kind: NUM, num, ..UNDEFINED }) } }

// ---- buffers -----------------------------------------------------------------------------------
#[repr(transparent)] pub struct BackingStore(usize);
pub struct UniqueRef<T>(T);
pub struct SharedRef<T>(T);
impl UniqueRef<BackingStore> { pub fn make_shared(self) -> SharedRef<BackingStore> { SharedRef(self.0) } }
impl From<UniqueRef<BackingStore>> for SharedRef<BackingStore> { fn from(u: UniqueRef<BackingStore>) -> Self { SharedRef(u.0) } }
impl Deref for UniqueRef<BackingStore> { type Target = BackingStore; fn deref(&self) -> &BackingStore { &self.0 } }
impl Deref for SharedRef<BackingStore> { type Target = BackingStore; fn deref(&self) -> &BackingStore { &self.0 } }
impl Clone for SharedRef<BackingStore> { fn clone(&self) -> Self { SharedRef(BackingStore(self.0.0)) } }
impl BackingStore {
    /// "Might return `None` if the backing store has zero length."
    pub fn data(&self) -> Option<NonNull<c_void>> { let b = &mem().buf[self.0]; if b.len == 0 { None } else { NonNull::new(b.base as *mut c_void) } }
    pub fn byte_length(&self) -> usize { mem().buf[self.0].len }
}
impl Deref for BackingStore {
    type Target = VCells;
    fn deref(&self) -> &VCells { let b = &mem().buf[self.0]; unsafe { VCells::at(b.base, b.len) } }
}
impl ArrayBuffer {
    pub fn new<'s>(_s: &PinScope<'s, '_>, len: usize) -> Local<'s, ArrayBuffer> { let b = vbytes::new_buf(len, ZERO); loc(Val { kind: ABUF, n: len, buf: b, ..UNDEFINED }) }
    pub fn new_backing_store_from_vec(v: Vec<u8>) -> UniqueRef<BackingStore> { UniqueRef(BackingStore(vbytes::new_buf(v.len(), term_of(&v)))) }
    pub fn new_backing_store_from_boxed_slice(v: Vec<u8>) -> UniqueRef<BackingStore> { Self::new_backing_store_from_vec(v) }
    pub fn with_backing_store<'s>(_s: &PinScope<'s, '_>, b: &SharedRef<BackingStore>) -> Local<'s, ArrayBuffer> { loc(Val { kind: ABUF, n: b.byte_length(), buf: b.0.0, ..UNDEFINED }) }
    pub fn byte_length(&self) -> usize { self.0.n }
    pub fn get_backing_store(&self) -> SharedRef<BackingStore> { SharedRef(BackingStore(self.0.buf)) }
    pub fn data(&self) -> Option<NonNull<c_void>> { BackingStore(self.0.buf).data() }
}
impl ArrayBufferView {
    pub fn byte_length(&self) -> usize { self.0.n }
    pub fn byte_offset(&self) -> usize { self.0.off }
    pub fn buffer<'s>(&self, _s: &PinScope<'s, '_>) -> Option<Local<'s, ArrayBuffer>> { loc::<ArrayBuffer>(Val { kind: ABUF, n: mem().buf[self.0.buf].len, buf: self.0.buf, ..UNDEFINED }).into() }
    pub fn get_backing_store(&self) -> Option<SharedRef<BackingStore>> { Some(SharedRef(BackingStore(self.0.buf))) }
    /// copies min(dest, byte_length) bytes
    pub fn copy_contents(&self, dest: &mut [u8]) -> usize {
        let (d, n) = (dest.len(), self.0.n);
        assert!(d <= i32::MAX as usize, "copy_contents: length does not fit an int");
        if d == n { vbytes::set_term(dest, self.0.term); } else { vbytes::set_term(dest, GARBAGE); }
        if d < n { d } else { n }
    }
}
impl TypedArray { pub fn length(&self) -> usize { self.0.n } }
impl Uint8Array {
    pub fn new<'s>(_s: &PinScope<'s, '_>, b: Local<'s, ArrayBuffer>, off: usize, len: usize) -> Option<Local<'s, Uint8Array>> {
        let blen = mem().buf[b.v.buf].len;
        if off > blen || len > blen - off { return None; }
        let term = if off == 0 && len == blen { mem().buf[b.v.buf].term } else { GARBAGE };
        Some(loc(Val { kind: U8A, buf: b.v.buf, off, n: len, term, ..UNDEFINED }))
    }
}

// ---- objects, functions, scripts ---------------------------------------------------------------
impl Object {
    pub fn new<'s>(_s: &PinScope<'s, '_>) -> Local<'s, Object> { let h = heap(); h.objs += 1; loc(Val { kind: OBJ, id: h.objs, ..UNDEFINED }) }
    pub fn set(&self, _s: &PinScope<'_, '_>, k: Local<'_, Value>, v: Local<'_, Value>) -> Option<bool> {
        let h = heap();
        let i = h.props;
        assert!(i < NPROP, "MODEL: too many properties");
        h.props = i + 1;
        h.prop_obj[i] = self.0.id;
        h.prop_key[i] = (k.v.s, k.v.n);
        h.prop_val[i] = v.v;
        Some(true)
    }
    pub fn get<'s>(&self, _s: &PinScope<'s, '_>, k: Local<'_, Value>) -> Option<Local<'s, Value>> {
        Some(loc(vp_get(self.0.id, unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(k.v.s, k.v.n)) })))
    }
}
impl Local<'_, Context> {}
impl Context { pub fn global<'s>(&self, _s: &PinScope<'s, '_>) -> Local<'s, Object> { loc(Val { kind: OBJ, id: 1, ..UNDEFINED }) } }
fn same(p: (*const u8, usize), k: &str) -> bool {
    if p.1 != k.len() { return false; }
    let b = k.as_bytes();
    for i in 0..k.len() { if unsafe { *p.0.add(i) } != b[i] { return false; } }
    true
}
/// last value stored under the key
pub fn vp_get(obj: usize, key: &str) -> Val {
    let h = heap();
    let mut r = UNDEFINED;
    for i in 0..NPROP { if i < h.props && h.prop_obj[i] == obj && same(h.prop_key[i], key) { r = h.prop_val[i]; } }
    r
}
fn tramp<'a, 's, 'i, F: for<'b, 't, 'j> Fn(&'b mut PinScope<'t, 'j>, FunctionCallbackArguments<'t>, ReturnValue<'t>)>(s: &'a mut PinScope<'s, 'i>, a: FunctionCallbackArguments<'s>, r: ReturnValue<'s>) {
    assert!(std::mem::size_of::<F>() == 0, "MODEL: natives capture nothing");
    let f: F = unsafe { std::mem::MaybeUninit::<F>::uninit().assume_init() };
    f(s, a, r)
}
impl Function {
    pub fn new<'s, F: for<'b, 't, 'j> Fn(&'b mut PinScope<'t, 'j>, FunctionCallbackArguments<'t>, ReturnValue<'t>) + Copy>(_s: &PinScope<'s, '_>, _f: F) -> Option<Local<'s, Function>> {
        let h = heap();
        let k = h.funs;
        assert!(k < NFUN, "MODEL: too many natives");
        h.funs = k + 1;
        unsafe { FUNS[k] = tramp::<F>; }
        Some(loc(Val { kind: FUNC, id: k, ..UNDEFINED }))
    }
}
/// calls the native stored under (obj, key)
pub fn vp_call(obj: usize, key: &str, args: &[Val]) -> bool {
    let f = vp_get(obj, key);
    if f.kind != FUNC { return false; }
    let mut s = PinScope::vp_new();
    let h = heap();
    h.ret = UNDEFINED;
    h.sets = 0;
    h.thrown = 0;
    h.err_kind = 0;
    let mut a = [UNDEFINED; 6];
    for i in 0..6 { if i < args.len() { a[i] = args[i]; } }
    let g = unsafe { FUNS[f.id] };
    g(&mut s, FunctionCallbackArguments { n: args.len() as i32, a, _p: PhantomData }, ReturnValue { _p: PhantomData });
    true
}
pub struct FunctionCallbackArguments<'s> { n: i32, a: [Val; 6], _p: PhantomData<&'s ()> }
impl<'s> FunctionCallbackArguments<'s> {
    pub fn length(&self) -> i32 { self.n }
    pub fn get(&self, i: i32) -> Local<'s, Value> { let mut r = UNDEFINED; for k in 0..6 { if i == k as i32 && i < self.n { r = self.a[k]; } } loc(r) }
}
pub struct ReturnValue<'s, T = Value> { _p: PhantomData<(&'s (), T)> }
impl<'s> ReturnValue<'s> {
    fn put(&mut self, v: Val) { let h = heap(); h.ret = v; h.sets += 1; }
    pub fn set(&mut self, v: Local<'_, Value>) { self.put(v.v) }
    pub fn set_undefined(&mut self) { self.put(UNDEFINED) }
    pub fn set_null(&mut self) { self.put(Val { kind: NULL, ..UNDEFINED }) }
    pub fn set_bool(&mut self, b: bool) { self.put(Val { kind: BOOL, b, ..UNDEFINED }) }
    pub fn set_empty_string(&mut self) { self.put(Val { kind: STR, n: 0, ..UNDEFINED }) }
}
pub struct Exception;
impl Exception {
    pub fn error<'s>(_s: &PinScope<'s, '_>, _m: Local<'_, String>) -> Local<'s, Value> { loc(Val { kind: ERR, id: 1, ..UNDEFINED }) }
    pub fn type_error<'s>(_s: &PinScope<'s, '_>, _m: Local<'_, String>) -> Local<'s, Value> { loc(Val { kind: ERR, id: 2, ..UNDEFINED }) }
    pub fn range_error<'s>(_s: &PinScope<'s, '_>, _m: Local<'_, String>) -> Local<'s, Value> { loc(Val { kind: ERR, id: 3, ..UNDEFINED }) }
}
pub struct Script;
impl Script {
    pub fn compile<'s>(_s: &PinScope<'s, '_>, _c: Local<'_, String>, _o: Option<()>) -> Option<Local<'s, Script>> { Some(loc(UNDEFINED)) }
    pub fn run<'s>(&self, _s: &PinScope<'s, '_>) -> Option<Local<'s, Value>> { heap().scripts += 1; Some(loc(UNDEFINED)) }
}
