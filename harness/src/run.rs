//! Running the code under test
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use relaxng_validator::{Validator, ValidatorError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub type Model = Rc<RefCell<Option<relaxng_model::model::DefineRule>>>;

#[derive(Clone, Default, Debug)]
pub struct MemFiles {
    pub files: Rc<BTreeMap<String, String>>,
    pub log: Rc<RefCell<Vec<PathBuf>>>,
}
/// Resolve . and .. segments
pub fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "." | "" => {}
            ".." => {
                if out.is_empty() || out.last() == Some(&"..") {
                    out.push("..")
                } else {
                    out.pop();
                }
            }
            s => out.push(s),
        }
    }
    format!("{}{}", if p.starts_with('/') { "/" } else { "" }, out.join("/"))
}
impl Files for MemFiles {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        self.log.borrow_mut().push(name.to_path_buf());
        match self.files.get(&norm(&name.to_string_lossy())) {
            Some(t) => Ok(t.clone()),
            None => Err(RelaxError::Io(name.to_path_buf(), std::io::Error::new(std::io::ErrorKind::NotFound, "no such file"))),
        }
    }
}
impl MemFiles {
    pub fn new(files: BTreeMap<String, String>) -> MemFiles {
        MemFiles { files: Rc::new(files), log: Default::default() }
    }
}

pub fn one(name: &str, text: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    m.insert(name.to_string(), text.to_string());
    m
}

pub struct Compiled {
    pub compiler: Compiler<MemFiles>,
    pub result: Result<Model, RelaxError>,
    pub log: Rc<RefCell<Vec<PathBuf>>>,
}

pub fn compile(files: &BTreeMap<String, String>, root: &str, xml: bool) -> Compiled {
    let fs = MemFiles::new(files.clone());
    let log = fs.log.clone();
    let mut compiler = Compiler::new(fs, if xml { Syntax::Xml } else { Syntax::Compact });
    let result = compiler.compile(Path::new(root));
    Compiled { compiler, result, log }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Xml,
    NotAllowed,
    Prefix,
    Entity,
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    /// kind of the first error, and its location
    pub error: Option<(Kind, Range<usize>)>,
    /// how many times validate_next was called
    pub steps: usize,
}
impl Outcome {
    pub fn valid(&self) -> bool {
        self.error.is_none()
    }
}

fn tok_span(t: &xmlparser::Token) -> Range<usize> {
    use xmlparser::Token::*;
    match t {
        Declaration { span, .. }
        | ProcessingInstruction { span, .. }
        | Comment { span, .. }
        | DtdStart { span, .. }
        | EmptyDtd { span, .. }
        | EntityDeclaration { span, .. }
        | DtdEnd { span, .. }
        | ElementStart { span, .. }
        | Attribute { span, .. }
        | ElementEnd { span, .. }
        | Cdata { span, .. } => span.range(),
        Text { text } => text.range(),
    }
}

pub fn error_place(e: &ValidatorError) -> (Kind, Range<usize>) {
    match e {
        ValidatorError::Xml(_) => (Kind::Xml, 0..0),
        ValidatorError::NotAllowed(t) => (Kind::NotAllowed, tok_span(t)),
        ValidatorError::UndefinedNamespacePrefix { prefix } => (Kind::Prefix, prefix.range()),
        ValidatorError::UndefinedEntity { span, .. } => (Kind::Entity, span.clone()),
        ValidatorError::InvalidOrUnclosedEntity { span } => (Kind::Entity, span.clone()),
        #[allow(unreachable_patterns)]
        _ => (Kind::Other, 0..0),
    }
}

pub fn validate(model: &Model, doc: &str) -> Outcome {
    let mut v = Validator::new(model.clone(), xmlparser::Tokenizer::from(doc));
    let mut steps = 0;
    loop {
        steps += 1;
        match v.validate_next() {
            None => return Outcome { error: None, steps },
            Some(Ok(())) => {}
            Some(Err(e)) => return Outcome { error: Some(error_place(&e)), steps },
        }
        // a correct validator consumes at least one token each time
        if steps > 4 * doc.len() + 1000 {
            panic!("validate_next makes no progress")
        }
    }
}

/// The rendered diagnostic of the first error
pub fn first_diagnostic(model: &Model, doc: &str) -> Option<(Kind, Vec<Diag>)> {
    let mut v = Validator::new(model.clone(), xmlparser::Tokenizer::from(doc));
    let mut steps = 0;
    loop {
        steps += 1;
        match v.validate_next() {
            None => return None,
            Some(Ok(())) => {}
            Some(Err(e)) => {
                let (map, d) = v.diagnostic("doc.xml".into(), doc.into(), &e);
                return Some((error_place(&e).0, convert(&map, &d)));
            }
        }
        if steps > 4 * doc.len() + 1000 {
            panic!("validate_next makes no progress")
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub level: String,
    pub message: String,
    pub spans: Vec<(usize, usize, Option<String>)>,
    pub rendered: String,
}

pub fn convert(map: &codemap::CodeMap, d: &[codemap_diagnostic::Diagnostic]) -> Vec<Diag> {
    let mut rendered = Vec::new();
    {
        let mut em = codemap_diagnostic::Emitter::vec(&mut rendered, Some(map));
        em.emit(d);
    }
    let rendered = String::from_utf8_lossy(&rendered).to_string();
    let base = map.find_file_base();
    d.iter()
        .map(|x| Diag {
            level: format!("{:?}", x.level),
            message: x.message.clone(),
            spans: x
                .spans
                .iter()
                .map(|s| {
                    let loc = map.look_up_span(s.span);
                    let a = s.span.low() - base(&loc.file);
                    let b = s.span.high() - base(&loc.file);
                    (a as usize, b as usize, s.label.clone())
                })
                .collect(),
            rendered: rendered.clone(),
        })
        .collect()
}

trait Base {
    fn find_file_base(&self) -> Box<dyn Fn(&codemap::File) -> codemap::Pos>;
}
impl Base for codemap::CodeMap {
    fn find_file_base(&self) -> Box<dyn Fn(&codemap::File) -> codemap::Pos> {
        Box::new(|f: &codemap::File| f.span.low())
    }
}

pub fn kind_of(e: &RelaxError) -> String {
    // unwrap chains of includes
    let mut e = e;
    while let RelaxError::IncludeError(_, inner) = e {
        e = inner;
    }
    let s = format!("{e:?}");
    s.split([' ', '(', '{']).next().unwrap_or("").to_string()
}

extern "C" {
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// What is written to stderr (by this process) while f runs
pub fn capture_stderr<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek, Write};
    use std::os::fd::FromRawFd;
    let _ = std::io::stderr().flush();
    unsafe {
        let fd = memfd_create(c"stderr".as_ptr(), 0);
        assert!(fd >= 0);
        let old = dup(2);
        assert!(old >= 0 && dup2(fd, 2) == 2);
        let t = f();
        let _ = std::io::stderr().flush();
        assert!(dup2(old, 2) == 2);
        close(old);
        let mut file = std::fs::File::from_raw_fd(fd);
        file.rewind().unwrap();
        let mut b = vec![];
        file.read_to_end(&mut b).unwrap();
        (t, String::from_utf8_lossy(&b).to_string())
    }
}

/// Without the escape sequences for colours
pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\u{1b}' {
            for c in i.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// The diagnostic of a schema error, as it's written to stderr
pub fn dump(c: &Compiler<MemFiles>, e: &RelaxError) -> Result<String, String> {
    let (r, t) = capture_stderr(|| crate::mon::guarded(|| c.dump_diagnostic(e)));
    r.map(|()| strip_ansi(&t))
}
