//! Contract files.  Line oriented: `@@directive args`, followed by text up to the next directive.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub name: String,
    pub rename: Option<String>,
    pub from: String,         // "file" or "tmpl"
    pub imp: Option<String>,  // impl type the function is looked up in
    pub opts: BTreeMap<String, String>,
    pub ret: Option<String>,
    pub sig: String,
    pub attrs: String,
    pub notes: Vec<(String, String)>, // (anchor, text)
}

#[derive(Debug, Clone)]
pub enum Part {
    Raw(String),
    Type { name: String, opts: BTreeMap<String, String> },
    Fn(FnSpec),
}

#[derive(Debug, Default)]
pub struct Unit {
    pub parts: Vec<Part>,
    /// between @@stubs and @@endstubs: functions proved in another unit, by the same contract
    stubs: bool,
}

fn opts(words: &[&str]) -> BTreeMap<String, String> {
    words
        .iter()
        .map(|w| match w.split_once('=') {
            Some((k, v)) => (k.to_string(), v.to_string()),
            None => (w.to_string(), String::new()),
        })
        .collect()
}

impl Unit {
    pub fn load(path: &str) -> Unit {
        let mut u = Unit::default();
        u.load_into(path);
        u
    }
    fn load_into(&mut self, path: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let dir = Path::new(path).parent().unwrap();
        let mut cur: Option<(String, String)> = None;
        for line in text.lines() {
            if let Some(d) = line.strip_prefix("@@") {
                if let Some(c) = cur.take() {
                    self.directive(c, dir);
                }
                cur = Some((d.to_string(), String::new()));
            } else if let Some(c) = &mut cur {
                c.1.push_str(line);
                c.1.push('\n');
            }
        }
        if let Some(c) = cur.take() {
            self.directive(c, dir);
        }
    }
    fn directive(&mut self, (d, text): (String, String), dir: &Path) {
        let words: Vec<&str> = d.split_whitespace().collect();
        let cur_fn = |u: &mut Unit| -> *mut FnSpec {
            match u.parts.last_mut() {
                Some(Part::Fn(f)) => f as *mut FnSpec,
                _ => panic!("@@{d} outside of @@fn"),
            }
        };
        match words[0] {
            "include" => self.load_into(dir.join(words[1]).to_str().unwrap()),
            "raw" => self.parts.push(Part::Raw(text)),
            "type" => self.parts.push(Part::Type {
                name: words[1].to_string(),
                opts: opts(&words[2..]),
            }),
            "fn" => {
                let mut o = opts(&words[2..]);
                if self.stubs {
                    o.insert("stub".into(), String::new());
                }
                self.parts.push(Part::Fn(FnSpec {
                    name: words[1].to_string(),
                    rename: o.get("as").cloned(),
                    from: o.get("from").cloned().unwrap_or_else(|| "file".into()),
                    imp: o.get("impl").cloned(),
                    opts: o,
                    ..Default::default()
                }))
            }
            "stubs" => self.stubs = true,
            "endstubs" => self.stubs = false,
            "endfn" | "comment" | "props" => {}
            "ret" => unsafe { (*cur_fn(self)).ret = Some(words[1].to_string()) },
            "sig" => unsafe { (*cur_fn(self)).sig.push_str(&text) },
            "attr" => unsafe { (*cur_fn(self)).attrs.push_str(&text) },
            // anchors
            "loop" | "head" | "tail" | "before" | "after" | "start" | "end" | "after-let"
            | "before-call" | "after-call" | "sort" | "closure" | "before-return" | "after-if"
            | "before-if" | "before-break" | "at-break" | "at-continue" | "arm" | "let-type" | "nested" | "then" | "before-assign" | "after-assign" => unsafe {
                let key = words.join(" ");
                (*cur_fn(self)).notes.push((key, text))
            },
            x => panic!("unknown directive @@{x}"),
        }
    }
}
