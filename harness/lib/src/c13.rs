//! Histories of requests over clones of the service adapters.

use crate::common::*;
use crate::svc::*;
use hdv_core::spec::ReqCase;
use hdv_core::tape::Tape;

pub fn kind(t: &mut Tape) -> Kind {
    Kind {
        what: *t.pick(&[What::Dec, What::Now, What::Routes]),
        sync: t.pct(35),
        layers: 0,
        delayed: false,
    }
}

pub fn case_for(t: &mut Tape, k: &Kind) -> ReqCase {
    let mut c = any_req(t);
    if k.what == What::Routes {
        if t.pct(75) {
            let (m, p) = *t.pick(&[
                ("GET", "/"),
                ("HEAD", "/"),
                ("GET", "/r/7"),
                ("HEAD", "/r/255"),
                ("POST", "/r/256"),
                ("POST", "/a"),
                ("PUT", "/a"),
                ("DELETE", "/a/b"),
                ("POST", "/a/b"),
                ("GET", "/item/%20"),
                ("HEAD", "/item/x"),
                ("PATCH", "/item/x"),
                ("PUT", "/item/x"),
            ]);
            c.method = m.into();
            c.path = p.into();
            c.form = hdv_core::spec::UriForm::Origin;
        }
        if c.path == "/a/b" && t.pct(70) {
            let s = *t.pick(&["null", "{\"a\":[1,2]}", "\"x\"", "17", "[1", ""]);
            c.body = chunks(t, s.as_bytes());
        }
    }
    c
}

pub fn plan(t: &mut Tape, id: u32, k: &Kind) -> Plan {
    let hnd = if k.sync || t.pct(65) { Res::Ok(RespPlan::gen(t)) } else { Res::Err(ErrPlan::gen(t)) };
    Plan {
        id,
        dec_polls: t.weighted(&[6, 2, 1, 1]) as u32,
        dec_err: if t.pct(20) { Some(ErrPlan::gen(t)) } else { None },
        reads: t.pct(60),
        hnd_polls: t.weighted(&[6, 2, 1, 1]) as u32,
        hnd,
        panic: None,
        catch: vec![],
        ready: (0, None),
    }
}

pub fn case(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    let n = 1 + t.weighted(&[5, 3, 1]);
    let kinds: Vec<Kind> = (0..n).map(|_| kind(t)).collect();
    history(t, o, &kinds, &|t, id, k| Req { case: case_for(t, k), plan: plan(t, id, k) })
}
