// Written by /verif/tools; do not edit.
#![allow(warnings)]

use engine::prelude::*;
use std::collections::HashMap;
use steit::types::{Bytes, List, Map, Maybe};
pub mod d_leaf; pub use d_leaf::Leaf;
pub mod d_wide; pub use d_wide::Wide;
pub mod d_inner; pub use d_inner::Inner;
pub mod d_nest; pub use d_nest::Nest;
pub mod d_shape; pub use d_shape::Shape;
pub mod d_color; pub use d_color::Color;
pub mod d_coll; pub use d_coll::Coll;
pub mod d_boxy; pub use d_boxy::Boxy;
pub mod d_tree; pub use d_tree::Tree;
pub mod d_cyc; pub use d_cyc::Cyc;
pub mod d_cyc2; pub use d_cyc2::Cyc2;
pub mod d_opty; pub use d_opty::Opty;
pub mod d_part; pub use d_part::Part;
pub mod d_part_e; pub use d_part_e::PartE;
pub mod d_names; pub use d_names::Names;
pub mod d_names_e; pub use d_names_e::NamesE;
pub mod d_g_pair; pub use d_g_pair::GPair;
pub mod d_g_coll; pub use d_g_coll::GColl;
pub mod d_g_enum; pub use d_g_enum::GEnum;
pub mod d_tup; pub use d_tup::Tup;
pub mod d_new1; pub use d_new1::New1;
pub mod d_unit0; pub use d_unit0::Unit0;
pub mod d_empty0; pub use d_empty0::Empty0;
pub mod d_no_cache; pub use d_no_cache::NoCache;
pub mod d_renamed; pub use d_renamed::Renamed;
pub mod d_renamed_e; pub use d_renamed_e::RenamedE;
pub mod d_ctor; pub use d_ctor::Ctor;
pub mod d_big; pub use d_big::Big;
pub mod d_rec; pub use d_rec::Rec;
pub use d_rec::LentRec;
pub mod d_deep; pub use d_deep::Deep;
pub use d_deep::LentDeep;
pub mod d_rec2; pub use d_rec2::Rec2;
pub use d_rec2::LentRec2;
pub mod d_act; pub use d_act::Act;
pub use d_act::LentAct;
pub mod d_hm; pub use d_hm::Hm;
pub use d_hm::LentHm;
pub mod d_tuples; pub use d_tuples::Tuples;
pub use d_tuples::LentTuples;
pub mod d_plain_g; pub use d_plain_g::PlainG;
pub mod d_or_g; pub use d_or_g::OrG;
pub mod d_excl; pub use d_excl::Excl;
pub use d_excl::LentExcl;
pub mod d_p_tup; pub use d_p_tup::PTup;
pub use d_p_tup::LentPTup;
pub mod d_p_unit; pub use d_p_unit::PUnit;
pub mod d_p_no_cache; pub use d_p_no_cache::PNoCache;
pub use d_p_no_cache::LentPNoCache;
pub mod d_p_names; pub use d_p_names::PNames;
pub use d_p_names::LentPNames;
pub mod d_p_names_e; pub use d_p_names_e::PNamesE;
pub use d_p_names_e::LentPNamesE;
pub fn targets() -> Vec<Box<dyn Target>> {
    vec![
        state_h::<Leaf>(),
        state_h::<Wide>(),
        state::<Inner>(),
        state::<Nest>(),
        state_h::<Shape>(),
        state_h::<Color>(),
        state::<Coll>(),
        state::<Boxy>(),
        state::<Box<Boxy>>(),
        state_h::<Box<Shape>>(),
        state_h::<Box<Leaf>>(),
        state_h::<Box<Box<Leaf>>>(),
        state_h::<Box<List<Shape>>>(),
        state::<Tree>(),
        state::<Cyc>(),
        state::<Cyc2>(),
        state::<Opty>(),
        state_h::<Part>(),
        state_h::<PartE>(),
        state_h::<Names>(),
        state_h::<NamesE>(),
        state_h::<GPair<u8, Leaf>>(),
        state_h::<GPair<Shape, List<i32>>>(),
        state_h::<GPair<GPair<bool, i64>, Maybe<u32>>>(),
        state::<GColl<u16>>(),
        state::<GColl<Shape>>(),
        state_h::<GEnum<i32, Leaf>>(),
        state_h::<GEnum<Leaf, bool>>(),
        state_h::<Tup>(),
        state_h::<New1>(),
        state_h::<Unit0>(),
        state_h::<Empty0>(),
        state::<NoCache>(),
        state::<Renamed>(),
        state::<RenamedE>(),
        state::<Ctor>(),
        state::<Big>(),
        state_h::<List<u8>>(),
        state_h::<List<i64>>(),
        state_h::<List<bool>>(),
        state_h::<List<Leaf>>(),
        state_h::<List<Shape>>(),
        state_h::<List<List<Leaf>>>(),
        state::<List<Coll>>(),
        state_h::<List<Maybe<Leaf>>>(),
        state::<List<Box<Tree>>>(),
        state::<Map<u8, u32>>(),
        state::<Map<u16, Leaf>>(),
        state::<Map<u32, List<i8>>>(),
        state::<Map<u32, i64>>(),
        state::<Map<u8, Shape>>(),
        state::<Map<u16, Map<u8, Leaf>>>(),
        state::<Map<u8, Coll>>(),
        state_h::<Maybe<u8>>(),
        state_h::<Maybe<Leaf>>(),
        state_h::<Maybe<Shape>>(),
        state_h::<Maybe<List<Shape>>>(),
        state_h::<Maybe<Maybe<Leaf>>>(),
        state::<Maybe<Map<u8, i32>>>(),
        state_h::<Maybe<Box<Shape>>>(),
        plain::<Rec>(),
        plain::<Deep>(),
        plain_h::<Rec2>(),
        plain::<Act>(),
        plain::<Hm>(),
        plain::<Tuples>(),
        plain::<PlainG<u8>>(),
        plain::<PlainG<String>>(),
        plain::<PlainG<Rec2>>(),
        plain::<OrG<i32>>(),
        plain::<OrG<Vec<OrG<Rec2>>>>(),
        plain_h::<Excl>(),
        plain_h::<PTup>(),
        plain::<PUnit>(),
        plain::<PNoCache>(),
        plain::<PNames>(),
        plain::<PNamesE>(),
        plain_h::<bool>(),
        plain_h::<u8>(),
        plain_h::<u16>(),
        plain_h::<u32>(),
        plain_h::<u64>(),
        plain_h::<i8>(),
        plain_h::<i16>(),
        plain_h::<i32>(),
        plain_h::<i64>(),
        plain_h::<String>(),
        plain_h::<Bytes>(),
        plain_h::<Option<u8>>(),
        plain_h::<Option<String>>(),
        plain_h::<Option<Option<i32>>>(),
        plain_h::<Option<Leaf>>(),
        plain_h::<Option<Option<Vec<u8>>>>(),
        plain_h::<Vec<u8>>(),
        plain_h::<Vec<i64>>(),
        plain_h::<Vec<bool>>(),
        plain_h::<Vec<String>>(),
        plain_h::<Vec<Vec<Vec<u8>>>>(),
        plain_h::<Vec<Rec2>>(),
        plain_h::<Vec<Shape>>(),
        plain_h::<Vec<Option<u8>>>(),
        plain_h::<Vec<Bytes>>(),
        plain_h::<[u8; 1]>(),
        plain_h::<[i32; 2]>(),
        plain_h::<[bool; 3]>(),
        plain_h::<[u64; 4]>(),
        plain_h::<[i8; 5]>(),
        plain_h::<[u16; 6]>(),
        plain_h::<[i64; 7]>(),
        plain_h::<[String; 2]>(),
        plain_h::<[Leaf; 2]>(),
        plain_h::<[Vec<u8>; 3]>(),
        plain_h::<[Option<u8>; 4]>(),
        plain_h::<[Shape; 1]>(),
        plain_h::<Box<i32>>(),
        plain_h::<Box<String>>(),
        plain_h::<Box<Vec<u8>>>(),
        plain_h::<Option<Box<i32>>>(),
        plain_h::<(u8, i8)>(),
        plain_h::<(String, Vec<u8>, bool)>(),
        plain_h::<(u8, u16, u32, u64)>(),
        plain_h::<(i8, String, i32, Bytes, bool)>(),
        plain_h::<(u8, u8, u8, u8, u8, i64)>(),
        plain_h::<(Leaf, u8, String, Option<u8>, Vec<i8>, bool, (u8, u8))>(),
        plain::<HashMap<u8, u8>>(),
        plain::<HashMap<String, Vec<String>>>(),
        plain::<HashMap<i64, Shape>>(),
        plain::<HashMap<bool, HashMap<u16, String>>>(),
        plain::<Vec<HashMap<u8, String>>>(),
        plain_h::<Option<(u8, String)>>(),
        plain::<HashMap<String, Option<i32>>>(),
        plain_h::<Vec<(bool, i32)>>(),
    ]
}
pub fn shared() -> Vec<Shared> {
    vec![Shared::of::<Leaf>(), Shared::of::<Wide>(), Shared::of::<Inner>(), Shared::of::<Nest>(), Shared::of::<Shape>(), Shared::of::<Part>(), Shared::of::<PartE>(), Shared::of::<NoCache>(), Shared::of::<Opty>(), Shared::of::<List<Shape>>(), Shared::of::<List<List<Leaf>>>(), Shared::of::<Maybe<Nest>>(), Shared::of::<Tup>(), Shared::of::<Rec>(), Shared::of::<Rec2>(), Shared::of::<Deep>(), Shared::of::<Act>(), Shared::of::<Tuples>(), Shared::of::<Vec<Rec2>>(), Shared::of::<Hm>(), Shared::of::<PNoCache>()]
}
pub fn metas() -> Vec<Meta> {
    vec![
        Meta::of::<Leaf>("Leaf"),
        Meta::of::<Wide>("Wide"),
        Meta::of::<Inner>("Inner"),
        Meta::of::<Nest>("Nest"),
        Meta::of::<Shape>("Shape"),
        Meta::of::<Color>("Color"),
        Meta::of::<Coll>("Coll"),
        Meta::of::<Boxy>("Boxy"),
        Meta::of::<Box<Boxy>>("Box<Boxy>"),
        Meta::of::<Box<Shape>>("Box<Shape>"),
        Meta::of::<Box<Leaf>>("Box<Leaf>"),
        Meta::of::<Box<Box<Leaf>>>("Box<Box<Leaf>>"),
        Meta::of::<Box<List<Shape>>>("Box<List<Shape>>"),
        Meta::of::<Tree>("Tree"),
        Meta::of::<Cyc>("Cyc"),
        Meta::of::<Cyc2>("Cyc2"),
        Meta::of::<Opty>("Opty"),
        Meta::of::<Part>("Part"),
        Meta::of::<PartE>("PartE"),
        Meta::of::<Names>("Names"),
        Meta::of::<NamesE>("NamesE"),
        Meta::of::<GPair<u8, Leaf>>("GPair<u8, Leaf>"),
        Meta::of::<GPair<Shape, List<i32>>>("GPair<Shape, List<i32>>"),
        Meta::of::<GPair<GPair<bool, i64>, Maybe<u32>>>("GPair<GPair<bool, i64>, Maybe<u32>>"),
        Meta::of::<GColl<u16>>("GColl<u16>"),
        Meta::of::<GColl<Shape>>("GColl<Shape>"),
        Meta::of::<GEnum<i32, Leaf>>("GEnum<i32, Leaf>"),
        Meta::of::<GEnum<Leaf, bool>>("GEnum<Leaf, bool>"),
        Meta::of::<Tup>("Tup"),
        Meta::of::<New1>("New1"),
        Meta::of::<Unit0>("Unit0"),
        Meta::of::<Empty0>("Empty0"),
        Meta::of::<NoCache>("NoCache"),
        Meta::of::<Renamed>("Renamed"),
        Meta::of::<RenamedE>("RenamedE"),
        Meta::of::<Ctor>("Ctor"),
        Meta::of::<Big>("Big"),
        Meta::of::<List<u8>>("List<u8>"),
        Meta::of::<List<i64>>("List<i64>"),
        Meta::of::<List<bool>>("List<bool>"),
        Meta::of::<List<Leaf>>("List<Leaf>"),
        Meta::of::<List<Shape>>("List<Shape>"),
        Meta::of::<List<List<Leaf>>>("List<List<Leaf>>"),
        Meta::of::<List<Coll>>("List<Coll>"),
        Meta::of::<List<Maybe<Leaf>>>("List<Maybe<Leaf>>"),
        Meta::of::<List<Box<Tree>>>("List<Box<Tree>>"),
        Meta::of::<Map<u8, u32>>("Map<u8, u32>"),
        Meta::of::<Map<u16, Leaf>>("Map<u16, Leaf>"),
        Meta::of::<Map<u32, List<i8>>>("Map<u32, List<i8>>"),
        Meta::of::<Map<u32, i64>>("Map<u32, i64>"),
        Meta::of::<Map<u8, Shape>>("Map<u8, Shape>"),
        Meta::of::<Map<u16, Map<u8, Leaf>>>("Map<u16, Map<u8, Leaf>>"),
        Meta::of::<Map<u8, Coll>>("Map<u8, Coll>"),
        Meta::of::<Maybe<u8>>("Maybe<u8>"),
        Meta::of::<Maybe<Leaf>>("Maybe<Leaf>"),
        Meta::of::<Maybe<Shape>>("Maybe<Shape>"),
        Meta::of::<Maybe<List<Shape>>>("Maybe<List<Shape>>"),
        Meta::of::<Maybe<Maybe<Leaf>>>("Maybe<Maybe<Leaf>>"),
        Meta::of::<Maybe<Map<u8, i32>>>("Maybe<Map<u8, i32>>"),
        Meta::of::<Maybe<Box<Shape>>>("Maybe<Box<Shape>>"),
        Meta::of::<Rec>("Rec"),
        Meta::of::<Deep>("Deep"),
        Meta::of::<Rec2>("Rec2"),
        Meta::of::<Act>("Act"),
        Meta::of::<PlainG<u8>>("PlainG<u8>"),
        Meta::of::<PlainG<String>>("PlainG<String>"),
        Meta::of::<PlainG<Rec2>>("PlainG<Rec2>"),
        Meta::of::<OrG<i32>>("OrG<i32>"),
        Meta::of::<OrG<Vec<OrG<Rec2>>>>("OrG<Vec<OrG<Rec2>>>"),
        Meta::of::<Excl>("Excl"),
        Meta::of::<PTup>("PTup"),
        Meta::of::<PUnit>("PUnit"),
        Meta::of::<PNoCache>("PNoCache"),
        Meta::of::<PNames>("PNames"),
        Meta::of::<PNamesE>("PNamesE"),
        Meta::of::<bool>("bool"),
        Meta::of::<u8>("u8"),
        Meta::of::<u16>("u16"),
        Meta::of::<u32>("u32"),
        Meta::of::<u64>("u64"),
        Meta::of::<i8>("i8"),
        Meta::of::<i16>("i16"),
        Meta::of::<i32>("i32"),
        Meta::of::<i64>("i64"),
        Meta::of::<String>("String"),
        Meta::of::<Bytes>("Bytes"),
        Meta::of::<Option<u8>>("Option<u8>"),
        Meta::of::<Option<String>>("Option<String>"),
        Meta::of::<Option<Option<i32>>>("Option<Option<i32>>"),
        Meta::of::<Option<Leaf>>("Option<Leaf>"),
        Meta::of::<Option<Option<Vec<u8>>>>("Option<Option<Vec<u8>>>"),
        Meta::of::<Vec<u8>>("Vec<u8>"),
        Meta::of::<Vec<i64>>("Vec<i64>"),
        Meta::of::<Vec<bool>>("Vec<bool>"),
        Meta::of::<Vec<String>>("Vec<String>"),
        Meta::of::<Vec<Vec<Vec<u8>>>>("Vec<Vec<Vec<u8>>>"),
        Meta::of::<Vec<Rec2>>("Vec<Rec2>"),
        Meta::of::<Vec<Shape>>("Vec<Shape>"),
        Meta::of::<Vec<Option<u8>>>("Vec<Option<u8>>"),
        Meta::of::<Vec<Bytes>>("Vec<Bytes>"),
        Meta::of::<[u8; 1]>("[u8; 1]"),
        Meta::of::<[i32; 2]>("[i32; 2]"),
        Meta::of::<[bool; 3]>("[bool; 3]"),
        Meta::of::<[u64; 4]>("[u64; 4]"),
        Meta::of::<[i8; 5]>("[i8; 5]"),
        Meta::of::<[u16; 6]>("[u16; 6]"),
        Meta::of::<[i64; 7]>("[i64; 7]"),
        Meta::of::<[String; 2]>("[String; 2]"),
        Meta::of::<[Leaf; 2]>("[Leaf; 2]"),
        Meta::of::<[Vec<u8>; 3]>("[Vec<u8>; 3]"),
        Meta::of::<[Option<u8>; 4]>("[Option<u8>; 4]"),
        Meta::of::<[Shape; 1]>("[Shape; 1]"),
        Meta::of::<Box<i32>>("Box<i32>"),
        Meta::of::<Box<String>>("Box<String>"),
        Meta::of::<Box<Vec<u8>>>("Box<Vec<u8>>"),
        Meta::of::<Option<Box<i32>>>("Option<Box<i32>>"),
    ]
}
pub fn lent() -> Vec<Lent> {
    vec![
        Lent { name: "&'a str", ty: <String as Bind>::ty, with: |v, f| { let o = <String as Bind>::build(v); let x = &o; lend(&x.as_str(), f) } },
        Lent { name: "Vec<&'a str>", ty: <Vec<String> as Bind>::ty, with: |v, f| { let o = <Vec<String> as Bind>::build(v); let x = &o; lend(&x.iter().map(|x| x.as_str()).collect::<Vec<_>>(), f) } },
        Lent { name: "Option<&'a str>", ty: <Option<String> as Bind>::ty, with: |v, f| { let o = <Option<String> as Bind>::build(v); let x = &o; lend(&x.as_ref().map(|x| x.as_str()), f) } },
        Lent { name: "Box<&'a str>", ty: <Box<String> as Bind>::ty, with: |v, f| { let o = <Box<String> as Bind>::build(v); let x = &o; lend(&{ let x = &**x; Box::new(x.as_str()) }, f) } },
        Lent { name: "(&'a str, u8,)", ty: <(String, u8) as Bind>::ty, with: |v, f| { let o = <(String, u8) as Bind>::build(v); let x = &o; lend(&{ let t = x; ((&t.0).as_str(), (&t.1).clone(),) }, f) } },
        Lent { name: "(u16, Vec<&'a str>, &'a str,)", ty: <(u16, Vec<String>, String) as Bind>::ty, with: |v, f| { let o = <(u16, Vec<String>, String) as Bind>::build(v); let x = &o; lend(&{ let t = x; ((&t.0).clone(), (&t.1).iter().map(|x| x.as_str()).collect::<Vec<_>>(), (&t.2).as_str(),) }, f) } },
        Lent { name: "[&'a str; 2]", ty: <[String; 2] as Bind>::ty, with: |v, f| { let o = <[String; 2] as Bind>::build(v); let x = &o; lend(&{ let mut i = x.iter().map(|x| x.as_str()); [i.next().unwrap(), i.next().unwrap()] }, f) } },
        Lent { name: "HashMap<u8, &'a str>", ty: <HashMap<u8, String> as Bind>::ty, with: |v, f| { let o = <HashMap<u8, String> as Bind>::build(v); let x = &o; lend(&x.iter().map(|(y, x)| (y.clone(), x.as_str())).collect::<HashMap<_, _>>(), f) } },
        Lent { name: "HashMap<&'a str, &'a str>", ty: <HashMap<String, String> as Bind>::ty, with: |v, f| { let o = <HashMap<String, String> as Bind>::build(v); let x = &o; lend(&x.iter().map(|(y, x)| (y.as_str(), x.as_str())).collect::<HashMap<_, _>>(), f) } },
        Lent { name: "Vec<Option<&'a str>>", ty: <Vec<Option<String>> as Bind>::ty, with: |v, f| { let o = <Vec<Option<String>> as Bind>::build(v); let x = &o; lend(&x.iter().map(|x| x.as_ref().map(|x| x.as_str())).collect::<Vec<_>>(), f) } },
        Lent { name: "Option<Vec<&'a str>>", ty: <Option<Vec<String>> as Bind>::ty, with: |v, f| { let o = <Option<Vec<String>> as Bind>::build(v); let x = &o; lend(&x.as_ref().map(|x| x.iter().map(|x| x.as_str()).collect::<Vec<_>>()), f) } },
        Lent { name: "LentAct<'a>", ty: <Act as Bind>::ty, with: |v, f| { let o = <Act as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentDeep<'a>", ty: <Deep as Bind>::ty, with: |v, f| { let o = <Deep as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentExcl<'a>", ty: <Excl as Bind>::ty, with: |v, f| { let o = <Excl as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentHm<'a>", ty: <Hm as Bind>::ty, with: |v, f| { let o = <Hm as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentPNames<'a>", ty: <PNames as Bind>::ty, with: |v, f| { let o = <PNames as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentPNamesE<'a>", ty: <PNamesE as Bind>::ty, with: |v, f| { let o = <PNamesE as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentPNoCache<'a>", ty: <PNoCache as Bind>::ty, with: |v, f| { let o = <PNoCache as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentPTup<'a>", ty: <PTup as Bind>::ty, with: |v, f| { let o = <PTup as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentRec<'a>", ty: <Rec as Bind>::ty, with: |v, f| { let o = <Rec as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentRec2<'a>", ty: <Rec2 as Bind>::ty, with: |v, f| { let o = <Rec2 as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
        Lent { name: "LentTuples<'a>", ty: <Tuples as Bind>::ty, with: |v, f| { let o = <Tuples as Bind>::build(v); let x = &o; lend(&x.lend(), f) } },
    ]
}
