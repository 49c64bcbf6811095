//! A statement of any kind together with the command line that imports it.

use crate::fake::Plan;
use crate::journal::*;
use crate::prop::*;
use crate::stmt::*;
use crate::sut::Out;

#[derive(Clone, Debug)]
pub enum Body {
    Nw(Nw),
    Pp(Pp),
    Pdf(Pdf),
}

#[derive(Clone, Debug)]
pub struct St {
    pub body: Body,
    pub ns: Ns,
    pub legacy: bool,
}

pub struct Tools {
    pub gm: Option<String>,
    pub tess: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Nw,
    Pp,
    Pdf,
}

pub fn gen(s: &mut Src, kind: Kind, max: usize) -> St {
    let body = match kind {
        Kind::Nw => Body::Nw(Nw::gen(s, max)),
        Kind::Pp => Body::Pp(Pp::gen(s, max)),
        Kind::Pdf => Body::Pdf(Pdf::gen(s, max)),
    };
    let mut st = St { body, ns: Ns::Default, legacy: s.pct(60) };
    st.ns = match &st.body {
        Body::Pp(_) => {
            if s.pct(40) {
                Ns::Fixed(fixed_ns(s))
            } else {
                Ns::Default
            }
        }
        _ => {
            let a = st.account();
            gen_ns(s, &a)
        }
    };
    st
}

pub fn any_kind(s: &mut Src) -> Kind {
    [Kind::Nw, Kind::Pp, Kind::Pdf][s.weighted(&[40, 35, 25])]
}

/// What to type to import a statement: everything after `import -o OUT`.
pub struct Cmd {
    pub args: Vec<String>,
    pub envs: Vec<(String, String)>,
    /// Position in `args` of the statement's file.
    pub input: usize,
}

impl Cmd {
    pub fn run(&self, c: &mut Ctx, pre: &[&str]) -> R<Out> {
        let mut a: Vec<&str> = vec!["import"];
        a.extend(pre);
        a.extend(self.args.iter().map(|s| s.as_str()));
        let e: Vec<(&str, &str)> = self.envs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        c.run_full(&a, b"", &e, None)
    }
    pub fn ok(&self, c: &mut Ctx, pre: &[&str]) -> R<Out> {
        let o = self.run(c, pre)?;
        if !o.success() {
            return fail(format!("import {:?} failed unexpectedly: {}", self.args, o.brief()));
        }
        Ok(o)
    }
}

/// Directory with the stand-ins `gm` and `tesseract`, outside the case's files.
pub fn tools_dir(c: &Ctx) -> R<std::path::PathBuf> {
    let d = c.dir.parent().unwrap().join("tools");
    if !d.exists() {
        std::fs::create_dir_all(&d)?;
        let me = std::env::current_exe()?;
        for n in ["gm", "tesseract"] {
            std::os::unix::fs::symlink(&me, d.join(n))?;
        }
    }
    Ok(d)
}

pub fn tmp_left(c: &Ctx) -> Vec<String> {
    let d = c.dir.parent().unwrap().join("tmp");
    std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}

impl St {
    pub fn kind(&self) -> Kind {
        match self.body {
            Body::Nw(_) => Kind::Nw,
            Body::Pp(_) => Kind::Pp,
            Body::Pdf(_) => Kind::Pdf,
        }
    }
    pub fn kind_name(&self) -> &'static str {
        match &self.body {
            Body::Nw(n) if n.six => "nationwide-csv-6",
            Body::Nw(_) => "nationwide-csv-5",
            Body::Pp(_) => "paypal-csv",
            Body::Pdf(_) => "nationwide-pdf",
        }
    }
    pub fn account(&self) -> String {
        match &self.body {
            Body::Nw(n) => n.account.clone(),
            Body::Pdf(p) => p.account.clone(),
            Body::Pp(_) => String::new(),
        }
    }
    pub fn len(&self) -> usize {
        match &self.body {
            Body::Nw(n) => n.rows.len(),
            Body::Pdf(p) => p.rows.len(),
            Body::Pp(p) => p.rows.len(),
        }
    }
    pub fn ns_name(&self) -> String {
        match (&self.body, &self.ns) {
            (Body::Pp(_), Ns::Fixed(f)) => f.clone(),
            (Body::Pp(_), _) => "paypal".into(),
            _ => self.ns.name(&self.account()).unwrap(),
        }
    }
    pub fn expect(&self) -> Vec<Trn> {
        let ns = self.ns_name();
        match &self.body {
            Body::Nw(n) => n.expect(&ns, self.legacy),
            Body::Pp(p) => p.expect(&ns, self.legacy),
            Body::Pdf(p) => p.expect(&ns),
        }
    }
    /// Options between the importer's name and its positional arguments.
    fn options(&self) -> Vec<String> {
        let mut o = vec![];
        match &self.body {
            Body::Pp(p) => {
                o.extend(["--output-timezone".to_string(), p.out_tz.to_string()]);
                if let Ns::Fixed(f) = &self.ns {
                    o.extend(["--fingerprint-namespace".to_string(), f.clone()]);
                }
            }
            _ => {
                if let Some(a) = self.ns.arg() {
                    o.extend(["--fp-namespace".to_string(), a]);
                }
            }
        }
        if self.legacy && self.kind() != Kind::Pdf {
            o.push("--include-legacy-fingerprint".into());
        }
        o
    }
    /// Writes the statement's files with the given bytes as the statement.
    pub fn setup_raw(&self, c: &mut Ctx, pre: &str, data: &[u8]) -> R<Cmd> {
        if let Some(r) = self.ns.ron(&mut c.s) {
            c.write("lookup.ron", r)?;
        }
        let mut args = vec![];
        let mut envs = vec![];
        let name = match self.kind() {
            Kind::Nw => {
                args.push("nationwide-csv".to_string());
                format!("{}stmt.csv", pre)
            }
            Kind::Pp => {
                args.push("paypal-csv".to_string());
                format!("{}paypal.csv", pre)
            }
            Kind::Pdf => {
                args.push("nationwide-pdf".to_string());
                format!("{}stmt.pdf", pre)
            }
        };
        args.extend(self.options());
        let input = args.len();
        args.push(name.clone());
        c.write(&name, data)?;
        if let Body::Pp(p) = &self.body {
            let t = p.table(&mut c.s);
            let tn = format!("{}tz.csv", pre);
            c.write(&tn, t)?;
            args.push(tn);
        }
        if self.kind() == Kind::Pdf {
            let d = tools_dir(c)?;
            if c.s.pct(50) {
                envs.push(("PATH".to_string(), format!("{}:/usr/bin:/bin", d.display())));
            } else {
                args.push(d.join("gm").display().to_string());
                args.push(d.join("tesseract").display().to_string());
            }
        }
        Ok(Cmd { args, envs, input })
    }
    /// Sets the plan of the OCR stand-ins.
    pub fn plan(&self, c: &mut Ctx, cmd: &mut Cmd, pre: &str, plan: &Plan) -> R {
        let p = c.dir.parent().unwrap().join(format!("{}plan.txt", pre));
        plan.write(&p)?;
        c.mix(pages_tsv(&plan.pages).as_bytes());
        c.mix(format!("{} {}", plan.gm, plan.tess).as_bytes());
        if let Some(r) = &plan.raw {
            c.mix(r);
            c.note(&format!("--- raw OCR output ---\n{}", show(r)));
        }
        c.note(&format!("--- OCR text (gm: {}, tesseract: {}) ---\n{}", plan.gm, plan.tess, pages_tsv(&plan.pages)));
        cmd.envs.push(("AMV_FAKE_TOOLS".to_string(), p.display().to_string()));
        Ok(())
    }
    /// Writes everything needed to import this statement.
    pub fn setup(&self, c: &mut Ctx, pre: &str) -> R<Cmd> {
        match &self.body {
            Body::Nw(n) => {
                let d = n.file(&mut c.s, true);
                self.setup_raw(c, pre, &d)
            }
            Body::Pp(p) => {
                let d = p.file(&mut c.s, true);
                self.setup_raw(c, pre, &d)
            }
            Body::Pdf(p) => {
                let doc = p.doc(&mut c.s);
                let mut pages = doc.pages(&mut c.s);
                if c.s.pct(1) {
                    // Many pages.
                    for _ in 0..101 {
                        pages.insert(pages.len() / 2, page_rows(&vec![]));
                    }
                }
                let mut cmd = self.setup_raw(c, pre, b"%PDF-1.4 stand-in\n")?;
                if c.s.pct(15) {
                    stale(c, pre)?;
                }
                self.plan(c, &mut cmd, pre, &Plan::ok(pages))?;
                Ok(cmd)
            }
        }
    }
}

/// Files of an earlier scan, of another statement, beside the PDF.
pub fn stale(c: &mut Ctx, pre: &str) -> R {
    let mut q = Pdf::gen(&mut c.s, 3);
    if q.rows.is_empty() {
        q.rows.push(Pdf::row(&mut c.s, Date::new(2020, 3, 4)));
    }
    let doc = q.doc(&mut c.s);
    let t = pages_tsv(&doc.pages(&mut c.s));
    for n in [format!("{}stmt.tsv", pre), format!("{}stmt.pdf.tsv", pre), "ocr.tsv".to_string()] {
        c.write(&n, &t)?;
    }
    for n in [format!("{}stmt-0000.png", pre), format!("{}stmt.png", pre), "page-0000.png".to_string(), "page-0.png".to_string()] {
        c.write(&n, "PAGE 0\n")?;
    }
    c.write("png-files.txt", "page-0000.png\n")?;
    c.label("files of an earlier scan");
    Ok(())
}

pub fn strip_fps(ts: &mut [Trn]) {
    for t in ts {
        for p in &mut t.posts {
            p.cm.tags.retain(|x| !x.starts_with("fp-"));
        }
    }
}
