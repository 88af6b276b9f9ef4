//! Histories of requests over clones of services with panic catching.

use crate::c13;
use crate::common::*;
use crate::svc::*;
use hdv_core::tape::Tape;

fn res(t: &mut Tape, outermost: bool) -> Res {
    match t.weighted(&[5, 3, if outermost { 0 } else { 3 }]) {
        0 => Res::Ok(RespPlan::gen(t)),
        1 => Res::Err(ErrPlan::gen(t)),
        _ => Res::Panic(t.below(KINDS.len())),
    }
}

fn req(t: &mut Tape, id: u32, k: &Kind) -> Req {
    let mut plan = c13::plan(t, id, k);
    let sites: &[Site] = match (k.what, k.sync) {
        (What::Inner, _) => &[Site::InnerCall, Site::InnerPoll, Site::BodyStream],
        (What::Dec, false) => {
            &[Site::DecodeCall, Site::DecodePoll, Site::BodyStream, Site::HandlerCall, Site::HandlerPoll]
        }
        (What::Dec, true) => &[Site::HandlerCall, Site::DecodeCall, Site::DecodePoll, Site::BodyStream],
        (What::Now, false) => &[Site::DecodeCall, Site::HandlerCall, Site::HandlerPoll],
        (What::Now, true) => &[Site::HandlerCall, Site::DecodeCall],
        (What::Routes, false) => {
            &[Site::GuardCall, Site::GuardPoll, Site::BodyStream, Site::HandlerCall, Site::HandlerPoll]
        }
        (What::Routes, true) => &[Site::HandlerCall, Site::GuardCall, Site::GuardPoll, Site::BodyStream],
    };
    if t.pct(65) {
        plan.panic = Some((*t.pick(sites), t.below(KINDS.len())));
        if t.pct(70) {
            plan.dec_err = None;
        }
    }
    plan.catch = (0..k.layers).map(|l| (t.weighted(&[5, 2, 1, 1]) as u32, res(t, l + 1 == k.layers))).collect();
    if k.what == What::Inner && t.pct(30) {
        plan.ready = (t.below(4) as u32, if t.pct(30) { Some(ErrPlan::gen(t)) } else { None });
    }
    Req { case: c13::case_for(t, k), plan }
}

pub fn case(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    let n = 1 + t.weighted(&[6, 2]);
    let kinds: Vec<Kind> = (0..n)
        .map(|_| Kind {
            what: *t.pick(&[What::Inner, What::Dec, What::Now, What::Routes]),
            sync: t.pct(35),
            layers: 1 + t.weighted(&[6, 2, 1]),
            delayed: t.pct(50),
        })
        .map(|k| Kind { sync: k.sync && k.what != What::Inner, ..k })
        .collect();
    history(t, o, &kinds, &req)
}
