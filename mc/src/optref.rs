//! Reference interpretation of uninterpreted options.
use crate::descr::{Ent, Found, Ref, Want};
use crate::schema::{Card, Field, Schema, Ty};
use crate::text;
use crate::value::{Mv, V};
use prost_types::UninterpretedOption;

pub enum Fail {
    Bad(String),
    Open(String),
}
type R<T> = Result<T, Fail>;

fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Bad(s.into()))
}
fn open<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Open(s.into()))
}

pub struct Scope<'a> {
    pub s: &'a Schema,
    pub r: &'a Ref,
    pub file: usize,
    /// full name of what holds the options (the package for a file)
    pub scope: &'a str,
    /// a message, whose own scope counts or not
    pub msg: bool,
}

impl Scope<'_> {
    fn ext(&self, name: &str, m: usize) -> R<(u32, bool)> {
        let f = self.r.resolve(self.file, self.scope, name, Want::Ext);
        if self.msg && !name.starts_with('.') {
            let outer = self.scope.rfind('.').map_or("", |i| &self.scope[..i]);
            if self.r.resolve(self.file, outer, name, Want::Ext) != f {
                return open("an extension within the message itself");
            }
        }
        match f {
            Found::No => bad(format!("no extension {name}")),
            Found::Lenient(_) => open("found behind something of another sort"),
            Found::Yes(Ent::Ext(x)) => {
                let x = &self.r.exts[x];
                if self.r.msgs[x.extendee.unwrap()].at.full != self.s.msgs[m].name {
                    return bad(format!("{name} extends another message"));
                }
                Ok((x.p.number() as u32, true))
            }
            Found::Yes(_) => unreachable!(),
        }
    }

    fn part(&self, m: usize, name: &str, ext: bool) -> R<u32> {
        if ext {
            return Ok(self.ext(name, m)?.0);
        }
        match self.s.msgs[m].fields.iter().find(|f| f.name == name) {
            Some(f) if f.name == "uninterpreted_option" => open("uninterpreted_option itself"),
            Some(f) => Ok(f.num),
            None => bad(format!("no field {name}")),
        }
    }

    /// Returns the path of numbers of what was set.
    pub fn set(&self, m: &mut Mv, u: &UninterpretedOption) -> R<Vec<i32>> {
        let mut path = vec![];
        if u.name.is_empty() {
            return open("no name");
        }
        self.go(m, u, 0, &mut path)?;
        Ok(path)
    }

    fn go(&self, m: &mut Mv, u: &UninterpretedOption, i: usize, path: &mut Vec<i32>) -> R<()> {
        let part = &u.name[i];
        let num = self.part(m.ty, &part.name_part, part.is_extension)?;
        let f = self.s.msgs[m.ty].get(num).expect("field").clone();
        path.push(num as i32);
        let last = i + 1 == u.name.len();
        let other = |m: &Mv| f.oneof.is_some_and(|o| self.s.msgs[m.ty].oneofs[o].fields.iter().any(|n| *n != num && m.f.contains_key(n)));
        if !last {
            if f.ty.msg().is_none() || f.card == Card::Rep {
                return bad(format!("{} has no fields", f.name));
            }
            if other(m) {
                return open("another member of the oneof");
            }
            let sub = m.f.entry(num).or_insert_with(|| V::M(Box::new(Mv::new(f.ty.msg().unwrap()))));
            let V::M(sub) = sub else { unreachable!() };
            return self.go(sub, u, i + 1, path);
        }
        if f.card != Card::Rep && m.f.contains_key(&num) {
            return bad(format!("{} is set already", f.name));
        }
        let v = self.value(&f, u)?;
        if other(m) {
            return open("another member of the oneof");
        }
        if self.s.map_kv(&f).is_some() {
            let V::M(e) = v else { unreachable!() };
            let (k, x) = self.s.map_kv(&f).unwrap();
            let key = e.f.get(&1).cloned().unwrap_or_else(|| self.s.default_of(k));
            let val = e.f.get(&2).cloned().unwrap_or_else(|| self.s.default_of(x));
            match m.f.entry(num).or_insert_with(|| V::Map(Default::default())) {
                V::Map(mm) => {
                    mm.insert(key, val);
                }
                _ => unreachable!(),
            }
        } else if f.card == Card::Rep {
            match m.f.entry(num).or_insert_with(|| V::L(vec![])) {
                V::L(l) => {
                    path.push(l.len() as i32);
                    l.push(v);
                }
                _ => unreachable!(),
            }
        } else {
            m.f.insert(num, v);
        }
        Ok(())
    }

    fn value(&self, f: &Field, u: &UninterpretedOption) -> R<V> {
        let given = [
            u.identifier_value.is_some(),
            u.positive_int_value.is_some(),
            u.negative_int_value.is_some(),
            u.double_value.is_some(),
            u.string_value.is_some(),
            u.aggregate_value.is_some(),
        ];
        if given.iter().filter(|x| **x).count() > 1 {
            return open("several values");
        }
        let int: Option<i128> = u.positive_int_value.map(|v| v as i128).or(u.negative_int_value.map(|v| v as i128));
        if u.negative_int_value.is_some_and(|v| v >= 0) {
            return open("a negative value which is not");
        }
        let ranged = |lo: i128, hi: i128| match int {
            Some(v) if lo <= v && v <= hi => Ok(v),
            Some(v) => bad(format!("{v} out of range")),
            None => bad("not an integer"),
        };
        let float = || -> R<f64> {
            match (u.double_value, int) {
                (Some(d), _) => Ok(d),
                (None, Some(i)) => Ok(i as f64),
                _ if ["inf", "nan"].contains(&u.identifier_value()) => open("inf or nan"),
                _ => bad("not a number"),
            }
        };
        Ok(match f.ty {
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => V::I32(ranged(i32::MIN as i128, i32::MAX as i128)? as i32),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => V::I64(ranged(i64::MIN as i128, i64::MAX as i128)? as i64),
            Ty::Uint32 | Ty::Fixed32 => V::U32(ranged(0, u32::MAX as i128)? as u32),
            Ty::Uint64 | Ty::Fixed64 => V::U64(ranged(0, u64::MAX as i128)? as u64),
            Ty::Double => V::F64(float()?.to_bits()),
            Ty::Float => {
                let d = float()?;
                if int.is_some_and(|i| i as f32 != d as f32) {
                    return open("rounding");
                }
                if d.is_finite() && (d as f32).is_infinite() {
                    return open("float overflow");
                }
                V::F32((d as f32).to_bits())
            }
            Ty::Bool => match u.identifier_value.as_deref() {
                Some("true") => V::B(true),
                Some("false") => V::B(false),
                _ => return bad("not a bool"),
            },
            Ty::String => match &u.string_value {
                Some(b) => match String::from_utf8(b.clone()) {
                    Ok(s) => V::S(s),
                    Err(_) => return open("not UTF-8"),
                },
                None => return bad("not a string"),
            },
            Ty::Bytes => match &u.string_value {
                Some(b) => V::Y(b.clone()),
                None => return bad("not a string"),
            },
            Ty::Enum(e) => match u.identifier_value.as_deref().and_then(|n| self.s.enums[e].by_name(n)) {
                Some(n) => V::E(n),
                None => return bad("no value of the enum"),
            },
            Ty::Msg(m) | Ty::Group(m) => match &u.aggregate_value {
                None => return bad("not a message"),
                Some(t) => match text::read(self.s, m, t) {
                    (text::Verdict::Sure, v) => V::M(Box::new(v)),
                    (text::Verdict::Refuse(_), _) => return bad("no text of the message"),
                    _ => return open("text format"),
                },
            },
        })
    }
}
