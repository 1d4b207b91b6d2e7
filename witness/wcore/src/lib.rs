//! Instantiation witnesses: gives the analyser monomorphic instances of the library's generic API.
//! Nothing in here is ever executed.
#![allow(dead_code, unused_variables, clippy::all)]
use opg::models::*;
use serde::ser::*;

// ---- opaque leaves (intercepted by name)
pub struct W0;
pub struct W1;
pub struct W2;
pub struct W3;
pub struct W4;
pub struct W5;
pub struct W6;
pub struct W7;
pub struct W8;
pub struct W9;
macro_rules! leaf { ($($n:ident)*) => { $(
impl opg::OpgModel for $n {
    fn get_schema(_: &mut Components) -> Model { loop {} }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { loop {} }
}
)* } }
leaf!(W0 W1 W2 W3 W4 W5 W6 W7 W8 W9);

macro_rules! probe { ($($n:ident: $t:ty;)*) => { $(
pub mod $n {
    use super::*;
    pub fn schema(cx: &mut Components) -> Model { <$t as opg::OpgModel>::get_schema(cx) }
    pub fn name() -> Option<std::borrow::Cow<'static, str>> { <$t as opg::OpgModel>::type_name() }
    pub fn with_params(cx: &mut Components, p: &ContextParams) -> Model { <$t as opg::OpgModel>::get_schema_with_params(cx, p) }
    pub fn select(cx: &mut Components, inline: bool, p: &ContextParams) -> ModelReference { <$t as opg::OpgModel>::select_reference(cx, inline, p) }
    pub fn mention(cx: &mut Components, inline: bool, p: &ContextParams) -> ModelReference { cx.mention_schema::<$t>(inline, p) }
}
)* } }

probe! {
    t_w0: W0;
    t_char: char; t_str: str; t_string: String;
    t_i8: i8; t_u8: u8; t_i16: i16; t_u16: u16; t_i32: i32; t_u32: u32; t_i64: i64; t_u64: u64; t_isize: isize; t_usize: usize;
    t_f32: f32; t_f64: f64; t_bool: bool;
    t_ai8: std::sync::atomic::AtomicI8; t_au8: std::sync::atomic::AtomicU8; t_ai16: std::sync::atomic::AtomicI16; t_au16: std::sync::atomic::AtomicU16;
    t_ai32: std::sync::atomic::AtomicI32; t_au32: std::sync::atomic::AtomicU32; t_ai64: std::sync::atomic::AtomicI64; t_au64: std::sync::atomic::AtomicU64;
    t_aisize: std::sync::atomic::AtomicIsize; t_ausize: std::sync::atomic::AtomicUsize; t_abool: std::sync::atomic::AtomicBool;
    t_ref: &'static W0; t_refmut: &'static mut W0; t_box: Box<W0>; t_rc: std::rc::Rc<W0>; t_arc: std::sync::Arc<W0>;
    t_cell: std::cell::Cell<W0>; t_refcell: std::cell::RefCell<W0>; t_option: Option<W0>;
    t_option_vec: Option<Vec<W0>>; t_vec_option: Vec<Option<W0>>; t_box_str: Box<str>; t_ref_str: &'static str; t_box_slice: Box<[W0]>;
    t_option_string: Option<String>; t_rc_option: std::rc::Rc<Option<W0>>; t_option_box: Option<Box<W0>>;
    t_tuple1: (W0,);
    t_reptuple_a: (W0, W0);
    t_reptuple_b: (W0, W0, W0);
    t_reptuple_c: (W1, W0, W0, W1);
    t_reptuple_d: (W2, W1, W1, W0, W0, W2);
    t_reptuple_e: (W0, W0, W0, W0, W0, W0, W0);
    t_reptuple_f: (W3, W2, W1, W0);
    t_tuple2: (W0, W1);
    t_tuple3: (W0, W1, W2);
    t_tuple4: (W0, W1, W2, W3);
    t_tuple5: (W0, W1, W2, W3, W4);
    t_tuple6: (W0, W1, W2, W3, W4, W5);
    t_tuple7: (W0, W1, W2, W3, W4, W5, W6);
    t_tuple8: (W0, W1, W2, W3, W4, W5, W6, W7);
    t_tuple9: (W0, W1, W2, W3, W4, W5, W6, W7, W8);
    t_tuple10: (W0, W1, W2, W3, W4, W5, W6, W7, W8, W9);
    t_slice: [W0]; t_vec: Vec<W0>; t_hashset: std::collections::HashSet<W0>; t_linkedlist: std::collections::LinkedList<W0>;
    t_vecdeque: std::collections::VecDeque<W0>; t_binaryheap: std::collections::BinaryHeap<W0>;
    t_array1: [W0; 1]; t_array2: [W0; 2]; t_array16: [W0; 16]; t_array31: [W0; 31]; t_array32: [W0; 32];
    t_hashmap: std::collections::HashMap<String, W1>; t_btreemap: std::collections::BTreeMap<String, W1>;
    t_unit: ();
    t_uuid: uuid::Uuid; t_naivedatetime: chrono::NaiveDateTime; t_datetime: chrono::DateTime<chrono::Utc>; t_naivedate: chrono::NaiveDate;
    g_a: GA; g_b: GB; g_c: GC; g_d: GD; g_e: GE; g_f: GF; g_h: GH; g_opt: Option<GA>; g_vec: Vec<GA>; g_map: std::collections::BTreeMap<String, GC>;
    g_i: GI; g_j: GJ;
}
#[cfg(feature = "const_generics")]
probe! { t_array0: [W0; 0]; t_array33: [W0; 33]; }

// ---- type graphs: objects whose properties mention other types
macro_rules! node { ($($n:ident = $s:literal [$($f:literal : $t:ty),*];)*) => { $(
pub struct $n;
impl opg::OpgModel for $n {
    fn get_schema(cx: &mut Components) -> Model {
        let mut object = ModelObject::default();
        $( let p = cx.mention_schema::<$t>(false, &ContextParams::default()); let _ = object.add_property($f.to_owned(), p, true); )*
        Model { description: Some($s.to_owned()), data: ModelData::Single(ModelType { nullable: false, type_description: ModelTypeDescription::Object(object) }) }
    }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { Some(std::borrow::Cow::Borrowed($s)) }
}
)* } }
node! {
    GA = "GA" ["b": GB, "c": GC];
    GB = "GB" ["d": GD];
    GC = "GC" ["d": GD, "n": i32];
    GD = "GD" [];
    GE = "GE" ["me": GE];
    GF = "GF" ["h": GH, "items": Vec<GF>];
    GH = "GH" ["f": Box<GF>, "e": GE];
    GI = "GI" ["m": std::collections::BTreeMap<String, GJ>, "o": (GD, GI)];
    GJ = "GJ" ["i": [GI; 2], "j": std::rc::Rc<GJ>];
}

// ---- non generic entry points
pub fn apply_params(m: Model, p: &ContextParams) -> Model { m.apply_params(p) }
pub fn try_merge(a: &mut Model, b: Model) -> Result<(), ModelMergeError> { a.try_merge(b) }
pub fn merge(a: &mut ModelObject, b: ModelObject) -> Result<(), ModelMergeError> { a.merge(b) }
pub fn add_property(a: &mut ModelObject, n: String, r: ModelReference, req: bool) -> Result<(), ModelMergeError> { a.add_property(n, r, req) }
pub fn verify(c: &Components) -> Result<(), String> { c.verify_schemas() }
pub fn contains_model(c: &Components, n: &str) -> bool { c.contains_model(n) }
pub fn add_model(c: &mut Components, n: String, m: Model) { c.add_model(n, m) }
pub fn add_model_str(c: &mut Components, n: &str, m: Model) { c.add_model(n, m) }
pub fn mention_http(c: &mut Components, n: String, s: &HttpSecurityScheme) -> String { c.mention_security_scheme(n, s) }
pub fn mention_key(c: &mut Components, n: String, s: &ApiKeySecurityScheme) -> String { c.mention_security_scheme(n, s) }
pub fn mention_any(c: &mut Components, n: String, s: &SecurityScheme) -> String { c.mention_security_scheme(n, s) }
pub fn default_components() -> Components { Components::new() }
pub fn default_opg() -> Opg { Opg::default() }
pub fn op_builder(o: &mut Operation, a: &str, b: &str, c: &str, d: bool, r: RequestBody) {
    o.with_summary(a);
    o.with_operation_id(b);
    o.with_description(c);
    o.mark_deprecated(d);
    o.with_request_body(r);
}
pub fn op_summary(o: &mut Operation, a: &str) { o.with_summary(a); }
pub fn op_id(o: &mut Operation, a: &str) { o.with_operation_id(a); }
pub fn op_description(o: &mut Operation, a: &str) { o.with_description(a); }
pub fn op_deprecated(o: &mut Operation, a: bool) { o.mark_deprecated(a); }
pub fn op_body(o: &mut Operation, a: RequestBody) { o.with_request_body(a); }

// ---- abstract serializer
pub struct S;
#[derive(Debug)]
pub struct SErr;
pub struct SOk;
impl std::fmt::Display for SErr { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl std::error::Error for SErr {}
impl Error for SErr { fn custom<T: std::fmt::Display>(_: T) -> Self { loop {} } }
pub struct SSeq; pub struct STup; pub struct STupS; pub struct STupV; pub struct SMap; pub struct SStruct; pub struct SStructV;
type R<T> = Result<T, SErr>;
impl Serializer for S {
    type Ok = SOk; type Error = SErr;
    type SerializeSeq = SSeq; type SerializeTuple = STup; type SerializeTupleStruct = STupS; type SerializeTupleVariant = STupV;
    type SerializeMap = SMap; type SerializeStruct = SStruct; type SerializeStructVariant = SStructV;
    fn serialize_bool(self, _: bool) -> R<SOk> { loop {} }
    fn serialize_i8(self, _: i8) -> R<SOk> { loop {} }
    fn serialize_i16(self, _: i16) -> R<SOk> { loop {} }
    fn serialize_i32(self, _: i32) -> R<SOk> { loop {} }
    fn serialize_i64(self, _: i64) -> R<SOk> { loop {} }
    fn serialize_u8(self, _: u8) -> R<SOk> { loop {} }
    fn serialize_u16(self, _: u16) -> R<SOk> { loop {} }
    fn serialize_u32(self, _: u32) -> R<SOk> { loop {} }
    fn serialize_u64(self, _: u64) -> R<SOk> { loop {} }
    fn serialize_f32(self, _: f32) -> R<SOk> { loop {} }
    fn serialize_f64(self, _: f64) -> R<SOk> { loop {} }
    fn serialize_char(self, _: char) -> R<SOk> { loop {} }
    fn serialize_str(self, _: &str) -> R<SOk> { loop {} }
    fn serialize_bytes(self, _: &[u8]) -> R<SOk> { loop {} }
    fn serialize_none(self) -> R<SOk> { loop {} }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<SOk> { v.serialize(S) }
    fn serialize_unit(self) -> R<SOk> { loop {} }
    fn serialize_unit_struct(self, _: &'static str) -> R<SOk> { loop {} }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<SOk> { loop {} }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<SOk> { v.serialize(S) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R<SOk> { let r = v.serialize(S)?; newtype_variant(n, r) }
    fn serialize_seq(self, _: Option<usize>) -> R<SSeq> { loop {} }
    fn serialize_tuple(self, _: usize) -> R<STup> { loop {} }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<STupS> { loop {} }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<STupV> { loop {} }
    fn serialize_map(self, _: Option<usize>) -> R<SMap> { loop {} }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<SStruct> { loop {} }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<SStructV> { loop {} }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, v: &T) -> R<SOk> { self.serialize_str(&v.to_string()) }
}
// every element ends up in one of these; all are intercepted
pub fn newtype_variant(_: &'static str, _: SOk) -> R<SOk> { loop {} }
pub fn put_elem(_: &mut SSeq, _: SOk) -> R<()> { loop {} }
pub fn put_elem_t(_: &mut STup, _: SOk) -> R<()> { loop {} }
pub fn put_elem_ts(_: &mut STupS, _: SOk) -> R<()> { loop {} }
pub fn put_elem_tv(_: &mut STupV, _: SOk) -> R<()> { loop {} }
pub fn put_key(_: &mut SMap, _: SOk) -> R<()> { loop {} }
pub fn put_value(_: &mut SMap, _: SOk) -> R<()> { loop {} }
pub fn put_field(_: &mut SStruct, _: &'static str, _: SOk) -> R<()> { loop {} }
pub fn put_field_v(_: &mut SStructV, _: &'static str, _: SOk) -> R<()> { loop {} }
impl SerializeSeq for SSeq { type Ok = SOk; type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { let r = v.serialize(S)?; put_elem(self, r) }
    fn end(self) -> R<SOk> { loop {} } }
impl SerializeTuple for STup { type Ok = SOk; type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { let r = v.serialize(S)?; put_elem_t(self, r) }
    fn end(self) -> R<SOk> { loop {} } }
impl SerializeTupleStruct for STupS { type Ok = SOk; type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { let r = v.serialize(S)?; put_elem_ts(self, r) }
    fn end(self) -> R<SOk> { loop {} } }
impl SerializeTupleVariant for STupV { type Ok = SOk; type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { let r = v.serialize(S)?; put_elem_tv(self, r) }
    fn end(self) -> R<SOk> { loop {} } }
impl SerializeMap for SMap { type Ok = SOk; type Error = SErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { let r = v.serialize(S)?; put_key(self, r) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { let r = v.serialize(S)?; put_value(self, r) }
    fn end(self) -> R<SOk> { loop {} } }
impl SerializeStruct for SStruct { type Ok = SOk; type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R<()> { let r = v.serialize(S)?; put_field(self, k, r) }
    fn end(self) -> R<SOk> { loop {} } }
impl SerializeStructVariant for SStructV { type Ok = SOk; type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R<()> { let r = v.serialize(S)?; put_field_v(self, k, r) }
    fn end(self) -> R<SOk> { loop {} } }

macro_rules! ser { ($($n:ident: $t:ty;)*) => { $( pub fn $n(v: &$t) -> R<SOk> { v.serialize(S) } )* } }
ser! {
    ser_opg: Opg; ser_info: Info; ser_tag: Tag; ser_server: Server; ser_path: Path; ser_path_value: PathValue; ser_method: HttpMethod;
    ser_operation: Operation; ser_request_body: RequestBody; ser_response: Response; ser_callback: CallbackObject;
    ser_parameter_in: ParameterIn; ser_components: Components; ser_model: Model; ser_model_data: ModelData; ser_model_type: ModelType;
    ser_type_description: ModelTypeDescription; ser_reference: ModelReference; ser_security_scheme: SecurityScheme;
    ser_http_scheme: HttpSecurityScheme; ser_key_scheme: ApiKeySecurityScheme; ser_version: OpenApiVersion;
}
