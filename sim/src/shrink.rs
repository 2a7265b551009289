//! Minimises a failing scenario: fewer steps, fewer faults, shorter inputs and
//! schedules, as long as the same kind of violation remains.
use crate::checks::{judge, payload, set_payload, Ctx, Viol};
use crate::scn::*;
use crate::seam::{self};
use crate::wstp::Abort;

pub fn minimise(s0: &Scn, v0: Viol, cx: &mut Ctx, ms: u64) -> (Scn, Viol, u64) {
    let end = seam::mono_us() + ms * 1000;
    let mut best = s0.clone();
    let mut viol = v0;
    let mut tried = 0u64;
    macro_rules! attempt { ($t:expr) => {{
        let t: Scn = $t;
        if seam::mono_us() > end || tried > 3000 { false } else {
            tried += 1;
            match judge(&t, cx).viol { Some(v) if v.class == viol.class => { best = t; viol = v; true } _ => false }
        }
    }} }
    let keep_first = !["C01", "C02", "C07", "C10", "C11", "C13"].contains(&s0.check.as_str());
    loop {
        let before = best.to_text();
        // steps
        let mut i = best.steps.len();
        while i > keep_first as usize {
            i -= 1;
            if best.steps.len() > 1 && i < best.steps.len() { let mut t = best.clone(); t.steps.remove(i); attempt!(t); }
        }
        // surroundings
        if !best.env.is_empty() { let mut t = best.clone(); t.env.clear(); if !attempt!(t) { for k in (0..best.env.len()).rev() { let mut t = best.clone(); t.env.remove(k); attempt!(t); } } }
        if best.shift != 0 { let mut t = best.clone(); t.shift = 0; attempt!(t); }
        if best.check == "C12" && !best.knob.is_empty() { let mut t = best.clone(); t.knob.clear(); if !attempt!(t) { let mut k = best.knob.len(); while k > 0 { k -= 1; let mut t = best.clone(); t.knob.remove(k); attempt!(t); } } }
        // schedule
        if best.conc.is_some() {
            let mut chunk = best.conc.as_ref().unwrap().switches.len().max(1);
            loop {
                let mut at = 0;
                while at < best.conc.as_ref().unwrap().switches.len() {
                    let mut t = best.clone();
                    { let w = &mut t.conc.as_mut().unwrap().switches; let e = (at + chunk).min(w.len()); w.drain(at..e); }
                    if !attempt!(t) { at += chunk }
                }
                if chunk == 1 { break }
                chunk /= 2;
            }
            let mut t = best.clone(); t.conc.as_mut().unwrap().slice = 1 << 40; attempt!(t);
            let mut t = best.clone(); t.conc.as_mut().unwrap().first = 0; attempt!(t);
        }
        // faults and options, step by step
        for i in 0..best.steps.len() {
            if best.steps[i].abort != Abort::No { let mut t = best.clone(); t.steps[i].abort = Abort::No; attempt!(t); }
            if !best.steps[i].lf.is_empty() { let mut t = best.clone(); t.steps[i].lf.clear(); attempt!(t); }
            if best.steps[i].deny { let mut t = best.clone(); t.steps[i].deny = false; attempt!(t); }
            if best.steps[i].thread != 0 && best.conc.is_none() { let mut t = best.clone(); t.steps[i].thread = 0; attempt!(t); }
            for f in 0..best.steps[i].files.len() {
                if !best.steps[i].files[f].open_err.is_empty() { let mut t = best.clone(); t.steps[i].files[f].open_err.clear(); attempt!(t); }
                if best.steps[i].files[f].size_lie.is_some() { let mut t = best.clone(); t.steps[i].files[f].size_lie = None; attempt!(t); }
                if best.steps[i].files[f].stat_err != 0 { let mut t = best.clone(); t.steps[i].files[f].stat_err = 0; attempt!(t); }
                let mut k = best.steps[i].files[f].reads.len();
                while k > 0 { k -= 1; let mut t = best.clone(); t.steps[i].files[f].reads.remove(k); attempt!(t); }
            }
            if let Kind::Nat { opts, .. } = &best.steps[i].kind { if *opts != Opts::default() {
                let mut t = best.clone();
                if let Kind::Nat { opts, .. } = &mut t.steps[i].kind { *opts = Opts::default() }
                attempt!(t);
            } }
        }
        // inputs
        for i in 0..best.steps.len() {
            let Some(b) = payload(&best.steps[i]) else { continue };
            let mut b = b.to_vec();
            if b.is_empty() { continue }
            let mut chunk = b.len();
            loop {
                let mut at = 0;
                while at < b.len() {
                    let mut c = b.clone();
                    c.drain(at..(at + chunk).min(b.len()));
                    let mut t = best.clone();
                    set_payload(&mut t.steps[i], c.clone());
                    if attempt!(t) { b = c } else { at += chunk }
                }
                if chunk == 1 { break }
                chunk /= 2;
            }
        }
        if best.to_text() == before || seam::mono_us() > end || tried > 3000 { break }
    }
    // what is reported is what the file replays to
    if let Some(t) = Scn::from_text(&best.to_text()) { if let Some(v) = judge(&t, &mut Ctx::default()).viol { viol = v } }
    (best, viol, tried)
}
