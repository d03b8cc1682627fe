use symcore::explore::Report;
use symcore::field::to_dec;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))
}
pub fn brief(r: &Report) -> String {
    format!(
        "{:<34} {:6.1}s paths {} checks {:?} ident {}(f{} c{} p{} s{} u{}) merge e{} p{} u{} flips {} (inf {} negl {} taken {} unres {} skip {}) leaks {} q {} ({} unk, {:.1}s) nodes {} hashes {}{}{}{}",
        r.name,
        r.wall,
        r.paths,
        r.checks.values().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
        r.ident_total,
        r.ident_full,
        r.ident_cut,
        r.ident_pinned,
        r.ident_norm,
        r.ident_unknown,
        r.merges_entailed,
        r.merges_path,
        r.merges_unknown,
        r.flips_total,
        r.flips_infeasible,
        r.flips_negligible,
        r.flips_taken,
        r.flips_unresolved,
        r.flips_skipped,
        r.leaks,
        r.stats.queries,
        r.stats.unknown,
        r.stats.time.as_secs_f64(),
        r.nodes,
        r.hashes,
        if r.truncated { " TRUNC" } else { "" },
        if r.errors.is_empty() { String::new() } else { format!(" ERRORS {:?}", r.errors) },
        if r.failures.is_empty() {
            String::new()
        } else {
            format!(" FAILURES {:?}", r.failures.iter().map(|f| (&f.label, &f.why)).collect::<Vec<_>>())
        },
    )
}
pub fn report(l: &[Report]) -> String {
    let mut v = vec![];
    for r in l {
        let checks: Vec<String> = r
            .checks
            .iter()
            .map(|(k, (a, b))| format!("{}:[{},{}]", esc(k), a, b))
            .collect();
        let infos: Vec<String> = r.infos.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
        let fails: Vec<String> = r
            .failures
            .iter()
            .map(|f| {
                let vals: Vec<String> = f
                    .vals
                    .iter()
                    .map(|(k, (fid, x))| format!("[{},{},{}]", esc(k), fid, esc(&to_dec(x))))
                    .collect();
                format!(
                    "{{\"label\":{},\"why\":{},\"salt\":{},\"vals\":[{}]}}",
                    esc(&f.label),
                    esc(&f.why),
                    f.salt,
                    vals.join(",")
                )
            })
            .collect();
        v.push(format!(
            "{{\"name\":{},\"wall\":{:.2},\"paths\":{},\"discarded\":{},\"ops\":{},\"nodes\":{},\"vars\":{},\"hashes\":{},\"checks\":{{{}}},\"infos\":{{{}}},\
\"ident\":{{\"total\":{},\"full\":{},\"cut\":{},\"pinned\":{},\"normal\":{},\"unknown\":{}}},\
\"merges\":{{\"entailed\":{},\"path\":{},\"unknown\":{}}},\
\"flips\":{{\"total\":{},\"infeasible\":{},\"negligible\":{},\"taken\":{},\"unresolved\":{},\"skipped\":{}}},\
\"leaks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"q_unknown\":{},\"solver_s\":{:.3},\"truncated\":{},\"max_depth\":{},\
\"errors\":{},\"samples\":{},\"unresolved\":{},\"failures\":[{}]}}",
            esc(&r.name), r.wall, r.paths, r.paths_discarded, r.ops, r.nodes, r.vars, r.hashes,
            checks.join(","), infos.join(","),
            r.ident_total, r.ident_full, r.ident_cut, r.ident_pinned, r.ident_norm, r.ident_unknown,
            r.merges_entailed, r.merges_path, r.merges_unknown,
            r.flips_total, r.flips_infeasible, r.flips_negligible, r.flips_taken, r.flips_unresolved, r.flips_skipped,
            r.leaks, r.stats.queries, r.stats.sat, r.stats.unsat, r.stats.unknown, r.stats.time.as_secs_f64(), r.truncated, r.max_depth_seen,
            arr(&r.errors), arr(&r.samples), arr(&r.unresolved), fails.join(",")
        ));
    }
    format!("[{}]\n", v.join(",\n"))
}
