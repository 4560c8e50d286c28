//! Building documents from source text.
use dochy_core::json_dir_to_root;
use dochy_core::structs::RootObject;
use std::path::Path;

pub fn write_src(dir: &Path, files: &[(&str, &str)]) {
    std::fs::create_dir_all(dir).expect("scratch dir");
    for (n, t) in files {
        std::fs::write(dir.join(n), t).expect("scratch file");
    }
}

/// Reads source files (name, text) with validation on.
pub fn root_of(cx: &mut crate::infra::Ctx, files: &[(&str, &str)]) -> Result<RootObject, String> {
    let d = cx.fresh();
    write_src(&d, files);
    let r = json_dir_to_root(&d, true).map_err(|e| format!("source refused: {}", e));
    cx.drop_dir(&d);
    r
}

pub const STRUCT_SRC: &str = r#"{
  t1 : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b", v : 2 }],
  t2 : ["Table", [{ v : 0 }], { ID : "a", v : 3 }, { ID : "c", v : 4 }],
  x : 1,
  "s!" : "t",
  c : ["CList", [{ v : 0, k : ["CilDef", [{ w : 0 }]] }], { v : 1, k : ["Cil", { w : 5 }] }, { v : 2 }],
  l : ["MList", [{ x : 0, "n?" : 3, inner : ["MilDef", [{ y : 0, deep : ["MilDef", [{ z : 0 }]] }]], Ref : { t1 : "a", "t2?" : null } }],
    { x : 1, inner : ["Mil", { y : 1, deep : ["Mil", { z : 1 }] }, { y : 2 }] }, { x : 2, Ref : { t1 : "b", t2 : "c" } }],
  e : ["MList", [{ w : 0, Enum : { "t1?" : null, "t2?" : null } }], { w : 1, Enum : { t1 : "a" } }],
  "u!" : ["MList", [{ x : 0, "v!" : ["MilDef", [{ x : 0 }]] }], { x : 1, v : ["Mil", { x : 2 }] }],
  empty : ["MList", [{ x : 0 }]]
}"#;

/// The source above as it was before some of its members existed.
pub const STRUCT_OLD_SRC: &str = r#"{
  t1 : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b", v : 2 }],
  x : 7,
  l : ["MList", [{ x : 0 }], { x : 9 }],
  "u2!" : ["MList", [{ x : 0 }]]
}"#;

/// The archive of a source directory.
pub fn archive_of(dir: &Path) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    dochy_core::archive_src_dir(dir, &mut v).map_err(|e| format!("archive: {}", e))?;
    Ok(v)
}
