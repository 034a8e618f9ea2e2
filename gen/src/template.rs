#![allow(warnings)]
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, ReflectMessage};

/// Prints the marker of the type, the name of its descriptor and what is wrong.
fn check<T: Message + Default + ReflectMessage + PartialEq + std::fmt::Debug>(id: usize) {
    let d = T::default().descriptor();
    let res = trip::<T>(id).err().unwrap_or("ok".into());
    println!("{id}\t{}\t{}", d.full_name(), res.replace(['\n', '\t'], " "));
}

fn trip<T: Message + Default + ReflectMessage + PartialEq + std::fmt::Debug>(id: usize) -> Result<(), String> {
    for v in [&[][..], &[0x08, 7][..]] {
        let t = T::decode(v).map_err(|e| e.to_string())?;
        let d = t.transcode_to_dynamic();
        if d.descriptor() != t.descriptor() {
            return Err("the dynamic message is of another type".into());
        }
        let got = d.get_field_by_name(&format!("marker_{id}")).ok_or("the descriptor is that of another message")?.as_i32();
        if got != Some(if v.is_empty() { 0 } else { 7 }) || d.unknown_fields().count() != 0 {
            return Err(format!("{t:?} becomes {d:?}"));
        }
        let back = d.transcode_to::<T>().map_err(|e| e.to_string())?;
        if back != t {
            return Err(format!("{t:?} comes back as {back:?}"));
        }
    }
    Ok(())
}

mod x {
    pub static POOL: std::sync::LazyLock<prost_reflect::DescriptorPool> = std::sync::LazyLock::new(prost_reflect::DescriptorPool::global);
    pub const NAME: &str = "google.protobuf.Int32Value";
    /// a file "x.proto" with `package x; message M { int32 a = 1; }`
    pub static BYTES: &[u8] = &XBYTES;
    pub fn bytes() -> Vec<u8> { BYTES.to_vec() }
    pub fn pool() -> prost_reflect::DescriptorPool { POOL.clone() }
}

fn form<T: Message + Clone + Default + ReflectMessage + PartialEq + std::fmt::Debug>() {
    for v in [&[][..], &[0x08, 7][..]] {
        let t = T::decode(v).unwrap();
        let d = t.transcode_to_dynamic();
        assert!(["google.protobuf.Int32Value", "x.M"].contains(&d.descriptor().full_name()));
        assert_eq!(d.get_field_by_number(1).unwrap().as_i32(), Some(if v.is_empty() { 0 } else { 7 }));
        assert_eq!(d.transcode_to::<T>().unwrap(), t);
        let b = Box::new(t.clone());
        assert_eq!(b.descriptor(), t.descriptor());
        assert_eq!(b.transcode_to_dynamic(), d);
        let r: &dyn Fn() -> prost_reflect::MessageDescriptor = &|| t.descriptor();
        assert_eq!(r(), d.descriptor());
    }
}
