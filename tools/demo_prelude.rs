#![allow(non_snake_case, dead_code, unused_imports)]
// Helpers of the demonstrations: projects are written to a scratch folder and queried through
// the library's public interface.
use reveaal::ModelObjects::{Component, Query};
use reveaal::System::query_failures::QueryResult;
use reveaal::{extract_system_rep::create_executable_query, parse_queries};
use reveaal::{JsonProjectLoader, DEFAULT_SETTINGS};
use std::fmt::Write as _;
use std::path::PathBuf;

/// (id, invariant, type)
pub type Loc<'a> = (&'a str, &'a str, &'a str);
/// (source, target, sync with ? or !, guard, update)
pub type Ed<'a> = (&'a str, &'a str, &'a str, &'a str, &'a str);

pub fn comp(name: &str, decl: &str, locs: &[Loc], edges: &[Ed]) -> String {
    let mut s = format!("{{\"name\":\"{}\",\"declarations\":\"{}\",\"locations\":[", name, decl);
    for (i, (id, inv, ty)) in locs.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"id\":\"{}\",\"nickname\":\"\",\"invariant\":\"{}\",\"type\":\"{}\",\"urgency\":\"NORMAL\",\"x\":0,\"y\":0,\"color\":\"0\",\"nicknameX\":0,\"nicknameY\":0,\"invariantX\":0,\"invariantY\":0}}",
            if i > 0 { "," } else { "" }, id, inv, ty
        );
    }
    s.push_str("],\"edges\":[");
    for (i, (a, b, sync, guard, update)) in edges.iter().enumerate() {
        let (nm, st) = sync.split_at(sync.len() - 1);
        let _ = write!(
            s,
            "{}{{\"id\":\"E{}\",\"group\":\"\",\"sourceLocation\":\"{}\",\"targetLocation\":\"{}\",\"status\":\"{}\",\"select\":\"\",\"guard\":\"{}\",\"update\":\"{}\",\"sync\":\"{}\",\"isLocked\":false,\"nails\":[]}}",
            if i > 0 { "," } else { "" }, i, a, b,
            if st == "?" { "INPUT" } else { "OUTPUT" }, guard, update, nm
        );
    }
    s.push_str("],\"description\":\"\",\"x\":5.0,\"y\":5.0,\"width\":450.0,\"height\":600.0,\"color\":\"6\",\"includeInPeriodicCheck\":false}");
    s
}

pub struct Project(pub PathBuf);

impl Project {
    /// Components with their IO ("a?, b!").
    pub fn new(tag: &str, comps: &[(&str, &str, String)]) -> Project {
        let d = std::env::temp_dir().join(format!("reveaal-demo-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("Components")).unwrap();
        let mut decl = String::from("system ");
        decl.push_str(&comps.iter().map(|c| c.0).collect::<Vec<_>>().join(", "));
        decl.push_str(";\\n");
        for (n, io, j) in comps {
            let _ = write!(decl, "IO {} {{ {} }}\\n", n, io);
            std::fs::write(d.join("Components").join(format!("{}.json", n)), j).unwrap();
        }
        std::fs::write(
            d.join("SystemDeclarations.json"),
            format!("{{\"name\":\"System Declarations\",\"declarations\":\"{}\"}}", decl),
        )
        .unwrap();
        std::fs::write(d.join("Queries.json"), "[]").unwrap();
        Project(d)
    }

    pub fn run(&self, q: &str) -> QueryResult {
        let loader =
            JsonProjectLoader::new_loader(self.0.to_str().unwrap().to_string(), DEFAULT_SETTINGS);
        let query = Query {
            query: Some(parse_queries::parse_to_expression_tree(q).unwrap().remove(0)),
            comment: String::new(),
        };
        let mut l = loader.to_comp_loader();
        let r = match create_executable_query(&query, &mut *l) {
            Ok(q) => q.execute(),
            Err(e) => QueryResult::CustomError(format!("{:?}", e)),
        };
        r
    }

    pub fn refines(&self, q: &str) -> bool {
        match self.run(&format!("refinement: {}", q)) {
            QueryResult::Refinement(r) => r.is_ok(),
            _ => panic!("not a refinement verdict"),
        }
    }
}

impl Drop for Project {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
