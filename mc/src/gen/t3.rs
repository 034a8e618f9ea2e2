// This file is @generated by prost-build.
/// implicit presence
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Sc")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Sc {
    #[prost(double, tag = "1")]
    pub f_double: f64,
    #[prost(float, tag = "2")]
    pub f_float: f32,
    #[prost(int32, tag = "3")]
    pub f_int32: i32,
    #[prost(int64, tag = "4")]
    pub f_int64: i64,
    #[prost(uint32, tag = "5")]
    pub f_uint32: u32,
    #[prost(uint64, tag = "6")]
    pub f_uint64: u64,
    #[prost(sint32, tag = "7")]
    pub f_sint32: i32,
    #[prost(sint64, tag = "8")]
    pub f_sint64: i64,
    #[prost(fixed32, tag = "9")]
    pub f_fixed32: u32,
    #[prost(fixed64, tag = "10")]
    pub f_fixed64: u64,
    #[prost(sfixed32, tag = "11")]
    pub f_sfixed32: i32,
    #[prost(sfixed64, tag = "12")]
    pub f_sfixed64: i64,
    #[prost(bool, tag = "13")]
    pub f_bool: bool,
    #[prost(string, tag = "14")]
    pub f_string: ::prost::alloc::string::String,
    #[prost(bytes = "vec", tag = "15")]
    pub f_bytes: ::prost::alloc::vec::Vec<u8>,
    #[prost(enumeration = "E3", tag = "16")]
    pub f_enum: i32,
    #[prost(message, optional, tag = "17")]
    pub f_msg: ::core::option::Option<Leaf>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Leaf")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Leaf {
    #[prost(int32, tag = "1")]
    pub i: i32,
    #[prost(string, tag = "2")]
    pub s: ::prost::alloc::string::String,
}
/// explicit presence
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Op")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Op {
    #[prost(double, optional, tag = "1")]
    pub f_double: ::core::option::Option<f64>,
    #[prost(float, optional, tag = "2")]
    pub f_float: ::core::option::Option<f32>,
    #[prost(int32, optional, tag = "3")]
    pub f_int32: ::core::option::Option<i32>,
    #[prost(int64, optional, tag = "4")]
    pub f_int64: ::core::option::Option<i64>,
    #[prost(uint32, optional, tag = "5")]
    pub f_uint32: ::core::option::Option<u32>,
    #[prost(uint64, optional, tag = "6")]
    pub f_uint64: ::core::option::Option<u64>,
    #[prost(sint32, optional, tag = "7")]
    pub f_sint32: ::core::option::Option<i32>,
    #[prost(sint64, optional, tag = "8")]
    pub f_sint64: ::core::option::Option<i64>,
    #[prost(fixed32, optional, tag = "9")]
    pub f_fixed32: ::core::option::Option<u32>,
    #[prost(fixed64, optional, tag = "10")]
    pub f_fixed64: ::core::option::Option<u64>,
    #[prost(sfixed32, optional, tag = "11")]
    pub f_sfixed32: ::core::option::Option<i32>,
    #[prost(sfixed64, optional, tag = "12")]
    pub f_sfixed64: ::core::option::Option<i64>,
    #[prost(bool, optional, tag = "13")]
    pub f_bool: ::core::option::Option<bool>,
    #[prost(string, optional, tag = "14")]
    pub f_string: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(bytes = "vec", optional, tag = "15")]
    pub f_bytes: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "E3", optional, tag = "16")]
    pub f_enum: ::core::option::Option<i32>,
    #[prost(message, optional, tag = "17")]
    pub f_msg: ::core::option::Option<Leaf>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Rp")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Rp {
    #[prost(double, repeated, tag = "1")]
    pub f_double: ::prost::alloc::vec::Vec<f64>,
    #[prost(float, repeated, tag = "2")]
    pub f_float: ::prost::alloc::vec::Vec<f32>,
    #[prost(int32, repeated, tag = "3")]
    pub f_int32: ::prost::alloc::vec::Vec<i32>,
    #[prost(int64, repeated, tag = "4")]
    pub f_int64: ::prost::alloc::vec::Vec<i64>,
    #[prost(uint32, repeated, tag = "5")]
    pub f_uint32: ::prost::alloc::vec::Vec<u32>,
    #[prost(uint64, repeated, tag = "6")]
    pub f_uint64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sint32, repeated, tag = "7")]
    pub f_sint32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sint64, repeated, tag = "8")]
    pub f_sint64: ::prost::alloc::vec::Vec<i64>,
    #[prost(fixed32, repeated, tag = "9")]
    pub f_fixed32: ::prost::alloc::vec::Vec<u32>,
    #[prost(fixed64, repeated, tag = "10")]
    pub f_fixed64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sfixed32, repeated, tag = "11")]
    pub f_sfixed32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sfixed64, repeated, tag = "12")]
    pub f_sfixed64: ::prost::alloc::vec::Vec<i64>,
    #[prost(bool, repeated, tag = "13")]
    pub f_bool: ::prost::alloc::vec::Vec<bool>,
    #[prost(string, repeated, tag = "14")]
    pub f_string: ::prost::alloc::vec::Vec<::prost::alloc::string::String>,
    #[prost(bytes = "vec", repeated, tag = "15")]
    pub f_bytes: ::prost::alloc::vec::Vec<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "E3", repeated, tag = "16")]
    pub f_enum: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, repeated, tag = "17")]
    pub f_msg: ::prost::alloc::vec::Vec<Leaf>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Ru")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Ru {
    #[prost(double, repeated, packed = "false", tag = "1")]
    pub f_double: ::prost::alloc::vec::Vec<f64>,
    #[prost(float, repeated, packed = "false", tag = "2")]
    pub f_float: ::prost::alloc::vec::Vec<f32>,
    #[prost(int32, repeated, packed = "false", tag = "3")]
    pub f_int32: ::prost::alloc::vec::Vec<i32>,
    #[prost(int64, repeated, packed = "false", tag = "4")]
    pub f_int64: ::prost::alloc::vec::Vec<i64>,
    #[prost(uint32, repeated, packed = "false", tag = "5")]
    pub f_uint32: ::prost::alloc::vec::Vec<u32>,
    #[prost(uint64, repeated, packed = "false", tag = "6")]
    pub f_uint64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sint32, repeated, packed = "false", tag = "7")]
    pub f_sint32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sint64, repeated, packed = "false", tag = "8")]
    pub f_sint64: ::prost::alloc::vec::Vec<i64>,
    #[prost(fixed32, repeated, packed = "false", tag = "9")]
    pub f_fixed32: ::prost::alloc::vec::Vec<u32>,
    #[prost(fixed64, repeated, packed = "false", tag = "10")]
    pub f_fixed64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sfixed32, repeated, packed = "false", tag = "11")]
    pub f_sfixed32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sfixed64, repeated, packed = "false", tag = "12")]
    pub f_sfixed64: ::prost::alloc::vec::Vec<i64>,
    #[prost(bool, repeated, packed = "false", tag = "13")]
    pub f_bool: ::prost::alloc::vec::Vec<bool>,
    #[deprecated]
    #[prost(enumeration = "E3", repeated, packed = "false", tag = "16")]
    pub f_enum: ::prost::alloc::vec::Vec<i32>,
    #[deprecated]
    #[prost(int32, repeated, packed = "false", tag = "17")]
    pub f_dep: ::prost::alloc::vec::Vec<i32>,
}
/// map keys and values
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Mk")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Mk {
    #[prost(map = "int32, string", tag = "1")]
    pub k_int32: ::std::collections::HashMap<i32, ::prost::alloc::string::String>,
    #[prost(map = "int64, string", tag = "2")]
    pub k_int64: ::std::collections::HashMap<i64, ::prost::alloc::string::String>,
    #[prost(map = "uint32, string", tag = "3")]
    pub k_uint32: ::std::collections::HashMap<u32, ::prost::alloc::string::String>,
    #[prost(map = "uint64, string", tag = "4")]
    pub k_uint64: ::std::collections::HashMap<u64, ::prost::alloc::string::String>,
    #[prost(map = "sint32, string", tag = "5")]
    pub k_sint32: ::std::collections::HashMap<i32, ::prost::alloc::string::String>,
    #[prost(map = "sint64, string", tag = "6")]
    pub k_sint64: ::std::collections::HashMap<i64, ::prost::alloc::string::String>,
    #[prost(map = "fixed32, string", tag = "7")]
    pub k_fixed32: ::std::collections::HashMap<u32, ::prost::alloc::string::String>,
    #[prost(map = "fixed64, string", tag = "8")]
    pub k_fixed64: ::std::collections::HashMap<u64, ::prost::alloc::string::String>,
    #[prost(map = "sfixed32, string", tag = "9")]
    pub k_sfixed32: ::std::collections::HashMap<i32, ::prost::alloc::string::String>,
    #[prost(map = "sfixed64, string", tag = "10")]
    pub k_sfixed64: ::std::collections::HashMap<i64, ::prost::alloc::string::String>,
    #[prost(map = "bool, string", tag = "11")]
    pub k_bool: ::std::collections::HashMap<bool, ::prost::alloc::string::String>,
    #[prost(map = "string, int32", tag = "12")]
    pub k_string: ::std::collections::HashMap<::prost::alloc::string::String, i32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Mv")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Mv {
    #[prost(map = "int32, double", tag = "1")]
    pub v_double: ::std::collections::HashMap<i32, f64>,
    #[prost(map = "int32, float", tag = "2")]
    pub v_float: ::std::collections::HashMap<i32, f32>,
    #[prost(map = "int32, int32", tag = "3")]
    pub v_int32: ::std::collections::HashMap<i32, i32>,
    #[prost(map = "int32, int64", tag = "4")]
    pub v_int64: ::std::collections::HashMap<i32, i64>,
    #[prost(map = "int32, uint32", tag = "5")]
    pub v_uint32: ::std::collections::HashMap<i32, u32>,
    #[prost(map = "int32, uint64", tag = "6")]
    pub v_uint64: ::std::collections::HashMap<i32, u64>,
    #[prost(map = "int32, sint32", tag = "7")]
    pub v_sint32: ::std::collections::HashMap<i32, i32>,
    #[prost(map = "int32, sint64", tag = "8")]
    pub v_sint64: ::std::collections::HashMap<i32, i64>,
    #[prost(map = "int32, fixed32", tag = "9")]
    pub v_fixed32: ::std::collections::HashMap<i32, u32>,
    #[prost(map = "int32, fixed64", tag = "10")]
    pub v_fixed64: ::std::collections::HashMap<i32, u64>,
    #[prost(map = "int32, sfixed32", tag = "11")]
    pub v_sfixed32: ::std::collections::HashMap<i32, i32>,
    #[prost(map = "int32, sfixed64", tag = "12")]
    pub v_sfixed64: ::std::collections::HashMap<i32, i64>,
    #[prost(map = "int32, bool", tag = "13")]
    pub v_bool: ::std::collections::HashMap<i32, bool>,
    #[prost(map = "string, string", tag = "14")]
    pub v_string: ::std::collections::HashMap<
        ::prost::alloc::string::String,
        ::prost::alloc::string::String,
    >,
    #[prost(map = "string, bytes", tag = "15")]
    pub v_bytes: ::std::collections::HashMap<
        ::prost::alloc::string::String,
        ::prost::alloc::vec::Vec<u8>,
    >,
    #[prost(map = "string, enumeration(E3)", tag = "16")]
    pub v_enum: ::std::collections::HashMap<::prost::alloc::string::String, i32>,
    #[prost(map = "string, message", tag = "17")]
    pub v_msg: ::std::collections::HashMap<::prost::alloc::string::String, Leaf>,
    #[prost(map = "string, message", tag = "18")]
    pub v_rec: ::std::collections::HashMap<::prost::alloc::string::String, Rec>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.On")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct On {
    #[prost(int32, tag = "1")]
    pub before: i32,
    #[prost(string, tag = "10")]
    pub after: ::prost::alloc::string::String,
    #[prost(oneof = "on::Pick", tags = "2, 3, 4, 5, 6, 7, 8, 9")]
    pub pick: ::core::option::Option<on::Pick>,
    #[prost(oneof = "on::Other", tags = "11, 12")]
    pub other: ::core::option::Option<on::Other>,
}
/// Nested message and enum types in `On`.
pub mod on {
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum Pick {
        #[prost(int32, tag = "2")]
        OInt(i32),
        #[prost(string, tag = "3")]
        OStr(::prost::alloc::string::String),
        #[prost(bytes, tag = "4")]
        OBytes(::prost::alloc::vec::Vec<u8>),
        #[prost(enumeration = "super::E3", tag = "5")]
        OEnum(i32),
        #[prost(message, tag = "6")]
        OMsg(super::Leaf),
        #[prost(bool, tag = "7")]
        OBool(bool),
        #[prost(double, tag = "8")]
        ODouble(f64),
        #[prost(uint64, tag = "9")]
        OU64(u64),
    }
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Oneof)]
    pub enum Other {
        #[prost(int32, tag = "11")]
        PInt(i32),
        #[prost(message, tag = "12")]
        PMsg(super::Leaf),
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Rec")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Rec {
    #[prost(int32, tag = "1")]
    pub v: i32,
    #[prost(message, optional, boxed, tag = "2")]
    pub child: ::core::option::Option<::prost::alloc::boxed::Box<Rec>>,
    #[prost(message, repeated, tag = "3")]
    pub kids: ::prost::alloc::vec::Vec<Rec>,
    #[prost(map = "string, message", tag = "4")]
    pub named: ::std::collections::HashMap<::prost::alloc::string::String, Rec>,
    #[prost(oneof = "rec::Alt", tags = "5, 6")]
    pub alt: ::core::option::Option<rec::Alt>,
}
/// Nested message and enum types in `Rec`.
pub mod rec {
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum Alt {
        #[prost(message, tag = "5")]
        Left(::prost::alloc::boxed::Box<super::Rec>),
        #[prost(string, tag = "6")]
        Name(::prost::alloc::string::String),
    }
}
/// field number widths, declared out of order
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Nu")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Nu {
    #[prost(int32, tag = "536870911")]
    pub n5: i32,
    #[prost(int32, tag = "16")]
    pub n2: i32,
    #[prost(int32, tag = "15")]
    pub n1: i32,
    #[prost(uint64, repeated, tag = "2048")]
    pub n4: ::prost::alloc::vec::Vec<u64>,
    #[prost(int32, tag = "2047")]
    pub n3: i32,
    #[prost(string, tag = "1")]
    pub n0: ::prost::alloc::string::String,
    #[prost(int32, tag = "18999")]
    pub n6: i32,
    #[prost(int32, tag = "20000")]
    pub n7: i32,
    #[prost(bool, tag = "268435456")]
    pub n8: bool,
}
/// names
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Na")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Na {
    #[prost(int32, tag = "1")]
    pub foo_bar: i32,
    #[prost(int32, tag = "2")]
    pub lead: i32,
    #[prost(int32, tag = "3")]
    pub trail: i32,
    #[prost(int32, tag = "4")]
    pub two_under: i32,
    #[prost(int32, tag = "5")]
    pub upper_case: i32,
    #[prost(int32, tag = "6")]
    pub with1_2digits: i32,
    #[prost(int32, tag = "7")]
    pub custom: i32,
    #[prost(int32, tag = "8")]
    pub at: i32,
    #[prost(int32, tag = "9")]
    pub camel_case: i32,
    #[prost(int32, tag = "10")]
    pub quoted: i32,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Wk")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Wk {
    #[prost(message, optional, tag = "1")]
    pub any: ::core::option::Option<::prost_types::Any>,
    #[prost(message, optional, tag = "2")]
    pub ts: ::core::option::Option<::prost_types::Timestamp>,
    #[prost(message, optional, tag = "3")]
    pub dur: ::core::option::Option<::prost_types::Duration>,
    #[prost(message, optional, tag = "4")]
    pub empty: ::core::option::Option<()>,
    #[prost(message, optional, tag = "5")]
    pub mask: ::core::option::Option<::prost_types::FieldMask>,
    #[prost(message, optional, tag = "6")]
    pub st: ::core::option::Option<::prost_types::Struct>,
    #[prost(message, optional, tag = "7")]
    pub val: ::core::option::Option<::prost_types::Value>,
    #[prost(message, optional, tag = "8")]
    pub list: ::core::option::Option<::prost_types::ListValue>,
    #[prost(enumeration = "::prost_types::NullValue", tag = "9")]
    pub nul: i32,
    #[prost(message, optional, tag = "10")]
    pub w_double: ::core::option::Option<f64>,
    #[prost(message, optional, tag = "11")]
    pub w_float: ::core::option::Option<f32>,
    #[prost(message, optional, tag = "12")]
    pub w_int64: ::core::option::Option<i64>,
    #[prost(message, optional, tag = "13")]
    pub w_uint64: ::core::option::Option<u64>,
    #[prost(message, optional, tag = "14")]
    pub w_int32: ::core::option::Option<i32>,
    #[prost(message, optional, tag = "15")]
    pub w_uint32: ::core::option::Option<u32>,
    #[prost(message, optional, tag = "16")]
    pub w_bool: ::core::option::Option<bool>,
    #[prost(message, optional, tag = "17")]
    pub w_string: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(message, optional, tag = "18")]
    pub w_bytes: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Wr")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Wr {
    #[prost(message, repeated, tag = "1")]
    pub any: ::prost::alloc::vec::Vec<::prost_types::Any>,
    #[prost(message, repeated, tag = "2")]
    pub ts: ::prost::alloc::vec::Vec<::prost_types::Timestamp>,
    #[prost(message, repeated, tag = "3")]
    pub dur: ::prost::alloc::vec::Vec<::prost_types::Duration>,
    #[prost(message, repeated, tag = "4")]
    pub empty: ::prost::alloc::vec::Vec<()>,
    #[prost(message, repeated, tag = "5")]
    pub mask: ::prost::alloc::vec::Vec<::prost_types::FieldMask>,
    #[prost(message, repeated, tag = "6")]
    pub st: ::prost::alloc::vec::Vec<::prost_types::Struct>,
    #[prost(message, repeated, tag = "7")]
    pub val: ::prost::alloc::vec::Vec<::prost_types::Value>,
    #[prost(message, repeated, tag = "8")]
    pub list: ::prost::alloc::vec::Vec<::prost_types::ListValue>,
    #[prost(enumeration = "::prost_types::NullValue", repeated, tag = "9")]
    pub nul: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, repeated, tag = "10")]
    pub w_double: ::prost::alloc::vec::Vec<f64>,
    #[prost(message, repeated, tag = "11")]
    pub w_float: ::prost::alloc::vec::Vec<f32>,
    #[prost(message, repeated, tag = "12")]
    pub w_int64: ::prost::alloc::vec::Vec<i64>,
    #[prost(message, repeated, tag = "13")]
    pub w_uint64: ::prost::alloc::vec::Vec<u64>,
    #[prost(message, repeated, tag = "14")]
    pub w_int32: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, repeated, tag = "15")]
    pub w_uint32: ::prost::alloc::vec::Vec<u32>,
    #[prost(message, repeated, tag = "16")]
    pub w_bool: ::prost::alloc::vec::Vec<bool>,
    #[prost(message, repeated, tag = "17")]
    pub w_string: ::prost::alloc::vec::Vec<::prost::alloc::string::String>,
    #[prost(message, repeated, tag = "18")]
    pub w_bytes: ::prost::alloc::vec::Vec<::prost::alloc::vec::Vec<u8>>,
    #[prost(map = "string, message", tag = "20")]
    pub m_val: ::std::collections::HashMap<
        ::prost::alloc::string::String,
        ::prost_types::Value,
    >,
    #[prost(map = "int32, message", tag = "21")]
    pub m_ts: ::std::collections::HashMap<i32, ::prost_types::Timestamp>,
    #[prost(map = "string, message", tag = "22")]
    pub m_i64: ::std::collections::HashMap<::prost::alloc::string::String, i64>,
    #[prost(map = "bool, message", tag = "23")]
    pub m_any: ::std::collections::HashMap<bool, ::prost_types::Any>,
    #[prost(oneof = "wr::O", tags = "30, 31, 32, 33, 34")]
    pub o: ::core::option::Option<wr::O>,
}
/// Nested message and enum types in `Wr`.
pub mod wr {
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum O {
        #[prost(message, tag = "30")]
        OVal(::prost_types::Value),
        #[prost(enumeration = "::prost_types::NullValue", tag = "31")]
        ONul(i32),
        #[prost(message, tag = "32")]
        OStr(::prost::alloc::string::String),
        #[prost(message, tag = "33")]
        OSt(::prost_types::Struct),
        #[prost(message, tag = "34")]
        ODur(::prost_types::Duration),
    }
}
/// small message for exhaustive byte strings
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.By")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct By {
    #[prost(int32, tag = "1")]
    pub a: i32,
    #[prost(string, tag = "2")]
    pub s: ::prost::alloc::string::String,
    #[prost(sint32, repeated, tag = "3")]
    pub r: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, optional, boxed, tag = "4")]
    pub m: ::core::option::Option<::prost::alloc::boxed::Box<By>>,
    #[prost(map = "bool, uint32", tag = "5")]
    pub p: ::std::collections::HashMap<bool, u32>,
    #[prost(fixed32, tag = "6")]
    pub x: u32,
    #[prost(fixed64, repeated, tag = "9")]
    pub q: ::prost::alloc::vec::Vec<u64>,
    #[prost(bytes = "vec", tag = "10")]
    pub y: ::prost::alloc::vec::Vec<u8>,
    #[prost(oneof = "by::O", tags = "7, 8")]
    pub o: ::core::option::Option<by::O>,
}
/// Nested message and enum types in `By`.
pub mod by {
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Oneof)]
    pub enum O {
        #[prost(bool, tag = "7")]
        T(bool),
        #[prost(message, tag = "8")]
        L(super::Leaf),
    }
}
/// operations
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Fo")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Fo {
    #[prost(int32, tag = "1")]
    pub i: i32,
    #[prost(int32, optional, tag = "2")]
    pub oi: ::core::option::Option<i32>,
    #[prost(int32, repeated, tag = "3")]
    pub r: ::prost::alloc::vec::Vec<i32>,
    #[prost(map = "int32, int32", tag = "4")]
    pub m: ::std::collections::HashMap<i32, i32>,
    #[prost(message, optional, tag = "7")]
    pub l: ::core::option::Option<Leaf>,
    #[prost(oneof = "fo::O", tags = "5, 6, 8")]
    pub o: ::core::option::Option<fo::O>,
}
/// Nested message and enum types in `Fo`.
pub mod fo {
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Oneof)]
    pub enum O {
        #[prost(int32, tag = "5")]
        A(i32),
        #[prost(message, tag = "6")]
        B(super::Leaf),
        #[prost(string, tag = "8")]
        C(::prost::alloc::string::String),
    }
}
/// evolution
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Ev")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Ev {
    #[prost(int32, tag = "1")]
    pub a: i32,
    #[prost(string, tag = "2")]
    pub b: ::prost::alloc::string::String,
    #[prost(int32, repeated, tag = "3")]
    pub c: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, optional, boxed, tag = "4")]
    pub d: ::core::option::Option<::prost::alloc::boxed::Box<Ev>>,
    #[prost(fixed32, tag = "5")]
    pub e: u32,
    #[prost(fixed64, tag = "6")]
    pub f: u64,
    #[prost(message, repeated, tag = "7")]
    pub g: ::prost::alloc::vec::Vec<Ev>,
    #[prost(map = "int32, string", tag = "8")]
    pub h: ::std::collections::HashMap<i32, ::prost::alloc::string::String>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t3.Tx")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Tx {
    #[prost(int32, tag = "1")]
    pub i: i32,
    #[prost(float, tag = "2")]
    pub f: f32,
    #[prost(string, tag = "3")]
    pub s: ::prost::alloc::string::String,
    #[prost(message, optional, boxed, tag = "4")]
    pub m: ::core::option::Option<::prost::alloc::boxed::Box<Tx>>,
    #[prost(int32, repeated, tag = "5")]
    pub r: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, repeated, tag = "6")]
    pub q: ::prost::alloc::vec::Vec<Tx>,
    #[prost(map = "string, int32", tag = "7")]
    pub p: ::std::collections::HashMap<::prost::alloc::string::String, i32>,
    #[prost(enumeration = "E3", tag = "8")]
    pub e: i32,
    #[prost(bool, tag = "9")]
    pub b: bool,
    #[prost(message, optional, tag = "12")]
    pub any: ::core::option::Option<::prost_types::Any>,
    #[prost(oneof = "tx::O", tags = "10, 11")]
    pub o: ::core::option::Option<tx::O>,
}
/// Nested message and enum types in `Tx`.
pub mod tx {
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Oneof)]
    pub enum O {
        #[prost(uint64, tag = "10")]
        U(u64),
        #[prost(bytes, tag = "11")]
        Y(::prost::alloc::vec::Vec<u8>),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
#[repr(i32)]
pub enum E3 {
    Zero = 0,
    One = 1,
    Neg = -1,
    Max = 2147483647,
    Min = -2147483648,
}
impl E3 {
    /// String value of the enum field names used in the ProtoBuf definition.
    ///
    /// The values are not transformed in any way and thus are considered stable
    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
    pub fn as_str_name(&self) -> &'static str {
        match self {
            Self::Zero => "E3_ZERO",
            Self::One => "E3_ONE",
            Self::Neg => "E3_NEG",
            Self::Max => "E3_MAX",
            Self::Min => "E3_MIN",
        }
    }
    /// Creates an enum from field names used in the ProtoBuf definition.
    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
        match value {
            "E3_ZERO" => Some(Self::Zero),
            "E3_ONE" => Some(Self::One),
            "E3_NEG" => Some(Self::Neg),
            "E3_MAX" => Some(Self::Max),
            "E3_MIN" => Some(Self::Min),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
#[repr(i32)]
pub enum A3 {
    Zero = 0,
    One = 1,
}
impl A3 {
    /// String value of the enum field names used in the ProtoBuf definition.
    ///
    /// The values are not transformed in any way and thus are considered stable
    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
    pub fn as_str_name(&self) -> &'static str {
        match self {
            Self::Zero => "A3_ZERO",
            Self::One => "A3_ONE",
        }
    }
    /// Creates an enum from field names used in the ProtoBuf definition.
    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
        match value {
            "A3_ZERO" => Some(Self::Zero),
            "A3_ONE" => Some(Self::One),
            _ => None,
        }
    }
}
