// This file is @generated by prost-build.
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Sc")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Sc {
    #[prost(double, optional, tag = "1")]
    pub f_double: ::core::option::Option<f64>,
    #[prost(float, optional, tag = "2")]
    pub f_float: ::core::option::Option<f32>,
    #[prost(int32, optional, tag = "3")]
    pub f_int32: ::core::option::Option<i32>,
    #[prost(int64, optional, tag = "4")]
    pub f_int64: ::core::option::Option<i64>,
    #[prost(uint32, optional, tag = "5")]
    pub f_uint32: ::core::option::Option<u32>,
    #[prost(uint64, optional, tag = "6")]
    pub f_uint64: ::core::option::Option<u64>,
    #[prost(sint32, optional, tag = "7")]
    pub f_sint32: ::core::option::Option<i32>,
    #[prost(sint64, optional, tag = "8")]
    pub f_sint64: ::core::option::Option<i64>,
    #[prost(fixed32, optional, tag = "9")]
    pub f_fixed32: ::core::option::Option<u32>,
    #[prost(fixed64, optional, tag = "10")]
    pub f_fixed64: ::core::option::Option<u64>,
    #[prost(sfixed32, optional, tag = "11")]
    pub f_sfixed32: ::core::option::Option<i32>,
    #[prost(sfixed64, optional, tag = "12")]
    pub f_sfixed64: ::core::option::Option<i64>,
    #[prost(bool, optional, tag = "13")]
    pub f_bool: ::core::option::Option<bool>,
    #[prost(string, optional, tag = "14")]
    pub f_string: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(bytes = "vec", optional, tag = "15")]
    pub f_bytes: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "E2", optional, tag = "16")]
    pub f_enum: ::core::option::Option<i32>,
    #[prost(message, optional, tag = "17")]
    pub f_msg: ::core::option::Option<Leaf>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Leaf")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Leaf {
    #[prost(int32, optional, tag = "1")]
    pub i: ::core::option::Option<i32>,
    #[prost(string, optional, tag = "2")]
    pub s: ::core::option::Option<::prost::alloc::string::String>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.De")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct De {
    #[prost(double, optional, tag = "1", default = "1.5")]
    pub f_double: ::core::option::Option<f64>,
    #[prost(float, optional, tag = "2", default = "-inf")]
    pub f_float: ::core::option::Option<f32>,
    #[prost(int32, optional, tag = "3", default = "-7")]
    pub f_int32: ::core::option::Option<i32>,
    #[prost(int64, optional, tag = "4", default = "-9223372036854775808")]
    pub f_int64: ::core::option::Option<i64>,
    #[prost(uint32, optional, tag = "5", default = "4294967295")]
    pub f_uint32: ::core::option::Option<u32>,
    #[prost(uint64, optional, tag = "6", default = "18446744073709551615")]
    pub f_uint64: ::core::option::Option<u64>,
    #[prost(sint32, optional, tag = "7", default = "-2147483648")]
    pub f_sint32: ::core::option::Option<i32>,
    #[prost(sint64, optional, tag = "8", default = "9")]
    pub f_sint64: ::core::option::Option<i64>,
    #[prost(fixed32, optional, tag = "9", default = "16")]
    pub f_fixed32: ::core::option::Option<u32>,
    #[prost(fixed64, optional, tag = "10", default = "8")]
    pub f_fixed64: ::core::option::Option<u64>,
    #[prost(sfixed32, optional, tag = "11", default = "-3")]
    pub f_sfixed32: ::core::option::Option<i32>,
    #[prost(sfixed64, optional, tag = "12", default = "-4")]
    pub f_sfixed64: ::core::option::Option<i64>,
    #[prost(bool, optional, tag = "13", default = "true")]
    pub f_bool: ::core::option::Option<bool>,
    #[prost(string, optional, tag = "14", default = "a\"b\n\u{e9}")]
    pub f_string: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(
        bytes = "vec",
        optional,
        tag = "15",
        default = "b\"\\x00\\xff\\\\x\\\'\\\"\\n\""
    )]
    pub f_bytes: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "E2", optional, tag = "16", default = "Neg")]
    pub f_enum: ::core::option::Option<i32>,
    #[prost(double, optional, tag = "17", default = "nan")]
    pub f_nan: ::core::option::Option<f64>,
    #[prost(double, optional, tag = "18", default = "1e+300")]
    pub f_exp: ::core::option::Option<f64>,
    #[prost(enumeration = "E2", optional, tag = "19")]
    pub f_enum0: ::core::option::Option<i32>,
    #[prost(float, optional, tag = "20", default = "0.1")]
    pub f_f: ::core::option::Option<f32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Rq")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Rq {
    #[prost(int32, required, tag = "1")]
    pub a: i32,
    #[prost(string, required, tag = "2")]
    pub b: ::prost::alloc::string::String,
    #[prost(message, required, tag = "3")]
    pub c: Leaf,
    #[prost(enumeration = "E2", required, tag = "4")]
    pub d: i32,
    #[prost(int32, optional, tag = "5")]
    pub e: ::core::option::Option<i32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Rp")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Rp {
    #[prost(double, repeated, packed = "false", tag = "1")]
    pub f_double: ::prost::alloc::vec::Vec<f64>,
    #[prost(float, repeated, packed = "false", tag = "2")]
    pub f_float: ::prost::alloc::vec::Vec<f32>,
    #[prost(int32, repeated, packed = "false", tag = "3")]
    pub f_int32: ::prost::alloc::vec::Vec<i32>,
    #[prost(int64, repeated, packed = "false", tag = "4")]
    pub f_int64: ::prost::alloc::vec::Vec<i64>,
    #[prost(uint32, repeated, packed = "false", tag = "5")]
    pub f_uint32: ::prost::alloc::vec::Vec<u32>,
    #[prost(uint64, repeated, packed = "false", tag = "6")]
    pub f_uint64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sint32, repeated, packed = "false", tag = "7")]
    pub f_sint32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sint64, repeated, packed = "false", tag = "8")]
    pub f_sint64: ::prost::alloc::vec::Vec<i64>,
    #[prost(fixed32, repeated, packed = "false", tag = "9")]
    pub f_fixed32: ::prost::alloc::vec::Vec<u32>,
    #[prost(fixed64, repeated, packed = "false", tag = "10")]
    pub f_fixed64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sfixed32, repeated, packed = "false", tag = "11")]
    pub f_sfixed32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sfixed64, repeated, packed = "false", tag = "12")]
    pub f_sfixed64: ::prost::alloc::vec::Vec<i64>,
    #[prost(bool, repeated, packed = "false", tag = "13")]
    pub f_bool: ::prost::alloc::vec::Vec<bool>,
    #[prost(string, repeated, tag = "14")]
    pub f_string: ::prost::alloc::vec::Vec<::prost::alloc::string::String>,
    #[prost(bytes = "vec", repeated, tag = "15")]
    pub f_bytes: ::prost::alloc::vec::Vec<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "E2", repeated, packed = "false", tag = "16")]
    pub f_enum: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, repeated, tag = "17")]
    pub f_msg: ::prost::alloc::vec::Vec<Leaf>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Pk")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Pk {
    #[prost(double, repeated, tag = "1")]
    pub f_double: ::prost::alloc::vec::Vec<f64>,
    #[prost(float, repeated, tag = "2")]
    pub f_float: ::prost::alloc::vec::Vec<f32>,
    #[prost(int32, repeated, tag = "3")]
    pub f_int32: ::prost::alloc::vec::Vec<i32>,
    #[prost(int64, repeated, tag = "4")]
    pub f_int64: ::prost::alloc::vec::Vec<i64>,
    #[prost(uint32, repeated, tag = "5")]
    pub f_uint32: ::prost::alloc::vec::Vec<u32>,
    #[prost(uint64, repeated, tag = "6")]
    pub f_uint64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sint32, repeated, tag = "7")]
    pub f_sint32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sint64, repeated, tag = "8")]
    pub f_sint64: ::prost::alloc::vec::Vec<i64>,
    #[prost(fixed32, repeated, tag = "9")]
    pub f_fixed32: ::prost::alloc::vec::Vec<u32>,
    #[prost(fixed64, repeated, tag = "10")]
    pub f_fixed64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sfixed32, repeated, tag = "11")]
    pub f_sfixed32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sfixed64, repeated, tag = "12")]
    pub f_sfixed64: ::prost::alloc::vec::Vec<i64>,
    #[prost(bool, repeated, tag = "13")]
    pub f_bool: ::prost::alloc::vec::Vec<bool>,
    #[prost(enumeration = "E2", repeated, tag = "16")]
    pub f_enum: ::prost::alloc::vec::Vec<i32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Gr")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Gr {
    #[prost(group, optional, tag = "1")]
    pub og: ::core::option::Option<gr::Og>,
    #[prost(group, repeated, tag = "3")]
    pub rg: ::prost::alloc::vec::Vec<gr::Rg>,
    #[prost(int32, optional, tag = "6")]
    pub tail: ::core::option::Option<i32>,
    #[prost(message, optional, boxed, tag = "16")]
    pub sub: ::core::option::Option<::prost::alloc::boxed::Box<Gr>>,
    #[prost(oneof = "gr::O", tags = "4, 5")]
    pub o: ::core::option::Option<gr::O>,
}
/// Nested message and enum types in `Gr`.
pub mod gr {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.Gr.Og")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Og {
        #[prost(int32, optional, tag = "1")]
        pub a: ::core::option::Option<i32>,
        #[prost(group, optional, tag = "2")]
        pub inner: ::core::option::Option<og::Inner>,
    }
    /// Nested message and enum types in `Og`.
    pub mod og {
        #[derive(::prost_reflect::ReflectMessage)]
        #[prost_reflect(message_name = "t2.Gr.Og.Inner")]
        #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
        #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
        pub struct Inner {
            #[prost(string, optional, tag = "1")]
            pub z: ::core::option::Option<::prost::alloc::string::String>,
        }
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.Gr.Rg")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct Rg {
        #[prost(int32, optional, tag = "1")]
        pub a: ::core::option::Option<i32>,
        #[prost(string, optional, tag = "2")]
        pub b: ::core::option::Option<::prost::alloc::string::String>,
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.Gr.Xg")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct Xg {
        #[prost(bool, optional, tag = "1")]
        pub q: ::core::option::Option<bool>,
    }
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum O {
        #[prost(group, tag = "4")]
        Xg(Xg),
        #[prost(int32, tag = "5")]
        Oi(i32),
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Ex")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Ex {
    #[prost(int32, optional, tag = "1")]
    pub base: ::core::option::Option<i32>,
    #[prost(string, optional, tag = "99")]
    pub name: ::core::option::Option<::prost::alloc::string::String>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Xgrp")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Xgrp {
    #[prost(int32, optional, tag = "1")]
    pub g: ::core::option::Option<i32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Xrg")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Xrg {
    #[prost(int32, optional, tag = "1")]
    pub g: ::core::option::Option<i32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.By")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct By {
    #[prost(int32, optional, tag = "1")]
    pub a: ::core::option::Option<i32>,
    #[prost(group, optional, tag = "2")]
    pub g: ::core::option::Option<by::G>,
    #[prost(group, repeated, tag = "3")]
    pub h: ::prost::alloc::vec::Vec<by::H>,
    #[prost(bool, required, tag = "4")]
    pub req: bool,
    #[prost(int32, repeated, tag = "7")]
    pub pk: ::prost::alloc::vec::Vec<i32>,
}
/// Nested message and enum types in `By`.
pub mod by {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.By.G")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct G {
        #[prost(int32, optional, tag = "1")]
        pub a: ::core::option::Option<i32>,
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.By.H")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct H {
        #[prost(message, optional, tag = "1")]
        pub b: ::core::option::Option<super::By>,
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Fo")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Fo {
    #[prost(int32, optional, tag = "1", default = "7")]
    pub i: ::core::option::Option<i32>,
    #[prost(int32, repeated, packed = "false", tag = "2")]
    pub r: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, optional, tag = "3")]
    pub l: ::core::option::Option<Leaf>,
    #[prost(oneof = "fo::O", tags = "4, 5")]
    pub o: ::core::option::Option<fo::O>,
}
/// Nested message and enum types in `Fo`.
pub mod fo {
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Oneof)]
    pub enum O {
        #[prost(int32, tag = "4")]
        A(i32),
        #[prost(string, tag = "5")]
        B(::prost::alloc::string::String),
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "t2.Tx")]
#[prost_reflect(descriptor_pool = "crate::gen::POOL")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Tx {
    #[prost(int32, optional, tag = "1")]
    pub i: ::core::option::Option<i32>,
    #[prost(group, optional, tag = "2")]
    pub gp: ::core::option::Option<tx::Gp>,
    #[prost(group, repeated, tag = "3")]
    pub rg: ::prost::alloc::vec::Vec<tx::Rg>,
    #[prost(double, optional, tag = "4")]
    pub d: ::core::option::Option<f64>,
    #[prost(sint64, required, tag = "5")]
    pub z: i64,
    #[prost(enumeration = "E2", optional, tag = "6")]
    pub e: ::core::option::Option<i32>,
}
/// Nested message and enum types in `Tx`.
pub mod tx {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.Tx.Gp")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct Gp {
        #[prost(int32, optional, tag = "1")]
        pub a: ::core::option::Option<i32>,
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "t2.Tx.Rg")]
    #[prost_reflect(descriptor_pool = "crate::gen::POOL")]
    #[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct Rg {
        #[prost(int32, optional, tag = "1")]
        pub b: ::core::option::Option<i32>,
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
#[repr(i32)]
pub enum E2 {
    One = 1,
    Two = 2,
    Neg = -5,
}
impl E2 {
    /// String value of the enum field names used in the ProtoBuf definition.
    ///
    /// The values are not transformed in any way and thus are considered stable
    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
    pub fn as_str_name(&self) -> &'static str {
        match self {
            Self::One => "E2_ONE",
            Self::Two => "E2_TWO",
            Self::Neg => "E2_NEG",
        }
    }
    /// Creates an enum from field names used in the ProtoBuf definition.
    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
        match value {
            "E2_ONE" => Some(Self::One),
            "E2_TWO" => Some(Self::Two),
            "E2_NEG" => Some(Self::Neg),
            _ => None,
        }
    }
}
