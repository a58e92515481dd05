use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use blockchaintree::tools;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Duration;

pub struct C26;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Blob {
    pub n: usize,
    pub seed: u64,
    pub kind: u8,
}
impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        expand(self.seed, self.n, self.kind)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Before {
    Nothing,
    Garbage(Blob),
    Compressed(Blob),
}
/// Path by name numbers; content of a file, or a directory.
pub type Node = (Vec<u8>, Option<Blob>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Round { data: Blob, before: Before, cut: Option<u16> },
    Foreign { data: B },
    Missing,
    Dir { nodes: Vec<Node>, target: u8 },
}

pub fn blob(max: usize) -> BoxedStrategy<Blob> {
    (len(max), any::<u64>(), 0u8..4).prop_map(|(n, seed, kind)| Blob { n, seed, kind }).boxed()
}

const NAMES: [&str; 8] = ["a", "b", "db", "conf", "blobs", "snap.0000", ".hidden", "\u{e9} x"];

fn name(x: u8) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    match x {
        0..=7 => NAMES[x as usize].into(),
        // not text
        8 => std::ffi::OsString::from_vec(vec![b'n', 0xff, 0xfe]),
        9 => "n".repeat(255).into(),
        10 => "copy of a (2).zst~".into(),
        11 => "\n".into(),
        _ => format!("k{x}").into(),
    }
}

/// Creates a directory tree.
pub fn grow(src: &Path, nodes: &[Node]) -> Result<(), String> {
    std::fs::create_dir_all(src).map_err(|e| format!("HARNESS {e}"))?;
    for (p, content) in nodes {
        let q = p.iter().fold(src.to_path_buf(), |q, x| q.join(name(*x)));
        match content {
            None => {
                let _ = std::fs::create_dir_all(&q);
            }
            Some(b) => {
                if std::fs::create_dir_all(q.parent().unwrap()).is_ok() && !q.is_dir() {
                    let _ = std::fs::write(&q, b.bytes());
                }
            }
        }
    }
    Ok(())
}

pub fn snapshot(root: &Path) -> Result<BTreeMap<PathBuf, Option<Vec<u8>>>, String> {
    fn walk(root: &Path, p: &Path, m: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) -> std::io::Result<()> {
        for e in std::fs::read_dir(p)? {
            let q = e?.path();
            let rel = q.strip_prefix(root).unwrap().to_path_buf();
            if q.is_dir() {
                m.insert(rel, None);
                walk(root, &q, m)?;
            } else {
                m.insert(rel, Some(std::fs::read(&q)?));
            }
        }
        Ok(())
    }
    let mut m = BTreeMap::new();
    walk(root, root, &mut m).map_err(|e| format!("HARNESS {e}"))?;
    Ok(m)
}

impl Property for C26 {
    type Case = Case;
    const ID: &'static str = "C26";
    fn rule() -> &'static str {
        "files: data of 0 bytes to 36 MB (random, constant, text-like, sparse), target absent or already holding other content, optionally cut short; foreign and missing files; directory trees of up to 14 nodes and depth 12, names that are long or not text, copied to new, nested-new or existing targets; non-trivial: more than 1000 bytes, a cut, or a directory with a subdirectory and a file"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(48_000, 960_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let before = prop_oneof![3 => Just(Before::Nothing), 1 => blob(3000).prop_map(Before::Garbage), 1 => blob(300_000).prop_map(Before::Compressed)];
        let data = prop_oneof![10 => blob(3000), 4 => blob(150_000), 1 => blob(700_000), 1 => (prop_oneof![20 => 3_900_000usize..4_200_000, 1 => 16_000_000usize..36_000_000], any::<u64>(), 1u8..4).prop_map(|(n, seed, kind)| Blob { n, seed, kind })];
        let cut = prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)];
        let node = (prop_oneof![4 => proptest::collection::vec(0u8..8, 1..5), 1 => proptest::collection::vec(0u8..14, 1..13)], proptest::option::weighted(0.7, blob(20_000)));
        prop_oneof![
            6 => (data, before, cut).prop_map(|(data, before, cut)| Case::Round { data, before, cut }),
            1 => bytes(500).prop_map(|data| Case::Foreign { data }),
            3 => (proptest::collection::vec(node, 0..14), prop_oneof![1 => 0u8..4, 1 => (0u8..64).prop_map(|k| k * 4 + 3)]).prop_map(|(nodes, target)| Case::Dir { nodes, target }),
            1 => Just(Case::Missing),
        ]
        .boxed()
    }
    fn run(c: &Case, cx: &mut Cx) -> Result<(), String> {
        let io = |e: std::io::Error| format!("HARNESS {e}");
        let dir = cx.dir();
        let file = dir.join("file.zst");
        let path = file.to_str().unwrap().to_string();
        match c {
            Case::Round { data, before, cut } => {
                let d = data.bytes();
                match before {
                    Before::Nothing => {}
                    Before::Garbage(b) => std::fs::write(&file, b.bytes()).map_err(io)?,
                    Before::Compressed(b) => must("compress", || tools::compress_to_file(path.clone(), &b.bytes()))?,
                }
                must("compress", || tools::compress_to_file(path.clone(), &d))?;
                let back = must("decompress", || tools::decompress_from_file(path.clone()))?;
                ensure!(back == d, "{} bytes written, {} bytes read back, or different content", d.len(), back.len());
                cx.label(match d.len() {
                    0 => "empty",
                    1..=1000 => "1-1000 bytes",
                    1001..=131072 => "1001-131072 bytes",
                    _ => ">128 KB",
                });
                if d.len() > 1000 {
                    cx.nontrivial();
                }
                if let Some(k) = cut {
                    let raw = std::fs::read(&file).map_err(io)?;
                    // at least one byte is left and at least one is gone
                    let n = 1 + *k as usize * (raw.len() - 1) / 65536;
                    if n < raw.len() {
                        std::fs::write(&file, &raw[..n]).map_err(io)?;
                        let r = op("decompress", || tools::decompress_from_file(path.clone()))?;
                        ensure!(r.is_err(), "a file cut from {} to {n} bytes was decompressed without an error", raw.len());
                        cx.label("cut short");
                        cx.nontrivial();
                    }
                }
            }
            Case::Foreign { data } => {
                let magic = data.0.get(1..4) == Some(&[0xb5, 0x2f, 0xfd]) || data.0.get(1..4) == Some(&[0x2a, 0x4d, 0x18]);
                if data.0.is_empty() || magic {
                    return Ok(());
                }
                cx.label("foreign file");
                std::fs::write(&file, &data.0).map_err(io)?;
                let r = op("decompress", || tools::decompress_from_file(path.clone()))?;
                ensure!(r.is_err(), "a file that is not a compressed stream was decompressed without an error");
            }
            Case::Missing => {
                cx.label("missing file");
                let r = op("decompress", || tools::decompress_from_file(path.clone()))?;
                ensure!(r.is_err(), "a missing file was decompressed without an error");
                let r = op("compress", || tools::compress_to_file(dir.join("no/such/dir").to_str().unwrap().into(), b"x"))?;
                ensure!(r.is_err(), "compressing into a missing directory reported success");
                let r = op("copy", || tools::copy_dir_all(dir.join("absent"), dir.join("t")))?;
                ensure!(r.is_err(), "copying a missing directory reported success");
            }
            Case::Dir { nodes, target } => {
                let src = dir.join("src");
                grow(&src, nodes)?;
                let before = snapshot(&src)?;
                let dst = match target % 4 {
                    0 => dir.join("dst"),
                    1 => dir.join("x/y/dst"),
                    2 => {
                        std::fs::create_dir_all(dir.join("dst")).map_err(io)?;
                        dir.join("dst")
                    }
                    _ => {
                        // an existing target holding an older version of the same tree
                        let d = dir.join("dst");
                        for (i, (p, v)) in before.iter().enumerate() {
                            let p = d.join(p);
                            let Some(v) = v else {
                                std::fs::create_dir_all(p).map_err(io)?;
                                continue;
                            };
                            std::fs::create_dir_all(p.parent().unwrap()).map_err(io)?;
                            let old = match (i + *target as usize / 4) % 6 {
                                0 => vec![7u8; 30_000],
                                // same length, another content
                                1 => v.iter().map(|x| x ^ 1).collect(),
                                // same length, same beginning
                                2 => v.iter().enumerate().map(|(k, x)| if k + 1 == v.len() { !x } else { *x }).collect(),
                                3 => v[..v.len() / 2].to_vec(),
                                4 => v.iter().copied().chain([1, 2, 3]).collect(),
                                _ => v.clone(),
                            };
                            let t = std::time::SystemTime::now();
                            let day = Duration::from_secs(86_400);
                            std::fs::write(&p, old).map_err(io)?;
                            let f = std::fs::OpenOptions::new().write(true).open(&p).map_err(io)?;
                            match target / 24 % 3 {
                                0 => {}
                                // the target is newer, or older, than the source
                                1 => f.set_modified(t + day).map_err(io)?,
                                _ => f.set_modified(t - day).map_err(io)?,
                            }
                        }
                        std::fs::create_dir_all(&d).map_err(io)?;
                        d
                    }
                };
                must("copy", || tools::copy_dir_all(&src, &dst))?;
                let (s2, got) = (snapshot(&src)?, snapshot(&dst)?);
                ensure!(s2 == before, "copying changed the source");
                for (p, v) in &before {
                    match got.get(p) {
                        None => return Err(format!("{} is missing in the copy", p.display())),
                        Some(w) => ensure!(w == v, "{} differs in the copy", p.display()),
                    }
                }
                ensure!(got.len() == before.len(), "the copy has entries the source does not have");
                cx.label(format!("directory, target kind {}", target % 4));
                if before.values().any(|v| v.is_none()) && before.iter().any(|(p, v)| v.is_some() && p.components().count() > 1) {
                    cx.nontrivial();
                }
            }
        }
        Ok(())
    }
}
