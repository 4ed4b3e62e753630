//! Stateless exploration of the real command-line tool: every schedule up to a number of preemptions combined with every placement of up to a
//! number of faults. One process per execution; the choices of each are dictated through `MC_PREFIX` and read back from the trace.
use crate::inv::{invader, Run};
use crate::hash_of;
use std::collections::HashSet;
use std::path::Path;

pub struct Space<'a> {
    pub args: Vec<String>,
    pub cwd: &'a Path,
    pub env: Vec<(&'static str, String)>,
    pub preemptions: usize,
    pub faults: usize,
    /// (which, of how many): explore only this share of the alternatives of the first execution
    pub shard: (usize, usize),
    /// Give up beyond this many executions (reported as truncated)
    pub most: usize,
}

pub struct Execution {
    pub run: Run,
    pub choices: Vec<u32>,
    /// The faults injected: "<kind> <op> <path>"
    pub faults: Vec<String>,
    pub preempted: usize,
    pub trace: String,
    /// The terminal event, if any
    pub end: Option<String>,
}
impl Execution {
    pub fn deadlocked(&self) -> bool { self.run.code == Some(99) }
    pub fn livelocked(&self) -> bool { self.run.code == Some(98) || self.run.err.contains("MC-HANG") }
    pub fn crashed(&self) -> bool { self.run.code == Some(77) }
    /// What a correct program never does, whatever the schedule and faults.
    pub fn disaster(&self) -> Option<String> {
        if self.run.panicked() { return Some(format!("panics: {}", crate::clip(&self.run.err))) }
        if self.deadlocked() || self.livelocked() { return Some(self.end.clone().unwrap_or_else(|| "hangs".into())) }
        if self.run.code == Some(96) { return Some(format!("not repeatable: {:?}", self.end)) }
        None
    }
    pub fn how(&self) -> String {
        let c: Vec<String> = self.choices.iter().rev().skip_while(|c| **c == 0).map(|c| c.to_string()).collect::<Vec<_>>().into_iter().rev().collect();
        format!("MC_PREFIX={} faults {:?}", c.join(","), self.faults)
    }
}

#[derive(Default, Debug)]
pub struct Explored { pub runs: u64, pub traces: HashSet<u64>, pub decisions: u64, pub truncated: bool }

/// `prepare` makes the initial state before each execution, `judge` gets each execution; exploration stops when it returns false.
pub fn explore(sp: &Space, mut prepare: impl FnMut(), mut judge: impl FnMut(&Execution) -> bool) -> Explored {
    let mut out = Explored::default();
    let trace_path = crate::scratch_root().join(format!("trace{}", crate::slot()));
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    let mut root = true;
    while let Some(prefix) = stack.pop() {
        if out.runs as usize >= sp.most { out.truncated = true; break }
        prepare();
        let _ = std::fs::remove_file(&trace_path);
        let mut env = sp.env.clone();
        env.push(("MC_TRACE", trace_path.display().to_string()));
        env.push(("MC_PREFIX", prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")));
        let run = invader(&sp.args, sp.cwd, &env);
        let trace = std::fs::read_to_string(&trace_path).unwrap_or_default();
        let tried: HashSet<&str> = trace.lines().filter_map(|l| l.split_once("trylock:").map(|x| x.1.split(' ').next().unwrap())).collect();
        let mut choices: Vec<u32> = vec![];
        let (mut preempted, mut faults) = (0, vec![]);
        let mut fresh: Vec<Vec<u32>> = vec![];
        let mut end = None;
        for l in trace.lines() {
            if let Some(x) = l.strip_prefix("X ") { end = Some(x.to_string()); continue }
            let Some(c) = l.strip_prefix("C ") else { continue };
            let mut w = c.splitn(3, ' ');
            let (n, chosen, note) = (w.next().unwrap().parse::<u32>().unwrap(), w.next().unwrap().parse::<u32>().unwrap(), w.next().unwrap_or(""));
            let (is_fault, is_preempt) = (note.starts_with("fault "), note.starts_with("P "));
            if choices.len() >= prefix.len() {
                let room = if is_fault { faults.len() < sp.faults } else if is_preempt { preempted < sp.preemptions } else { true };
                // releasing a lock matters to the others only if one of them could have failed to get it
                let moot = is_preempt && note.split(' ').nth(2).and_then(|o| o.strip_prefix("unlock:")).is_some_and(|m| !tried.contains(m));
                if room && !moot { for alt in 1..n { let mut p = choices.clone(); p.push(alt); fresh.push(p); } }
            }
            if chosen != 0 { if is_fault { faults.push(format!("kind {chosen} {}", &note[6..])) } else if is_preempt { preempted += 1 } }
            choices.push(chosen);
        }
        out.runs += 1;
        out.decisions += choices.len() as u64;
        out.traces.insert(hash_of(&trace));
        if root { root = false; fresh = fresh.into_iter().enumerate().filter(|(i, _)| i % sp.shard.1 == sp.shard.0).map(|x| x.1).collect(); }
        fresh.reverse();
        stack.extend(fresh);
        if !judge(&Execution { run, choices, faults, preempted, trace, end }) { break }
    }
    let _ = std::fs::remove_file(&trace_path);
    out
}
