//! Per-property views on a decoded request: which facets are compared and
//! what counts as a non-trivial case.

use crate::model::*;
use crate::spec::*;

pub fn facets(prop: &str) -> Facets {
    match prop {
        "C01" | "C17" => Facets {
            allowed: false,
            events: false,
            values: false,
        },
        "C02" | "C06" | "C07" => Facets {
            allowed: false,
            events: true,
            values: true,
        },
        "C03" | "C08" => Facets {
            allowed: false,
            events: false,
            values: true,
        },
        "C04" => Facets {
            allowed: true,
            events: false,
            values: false,
        },
        _ => Facets {
            allowed: true,
            events: true,
            values: true,
        },
    }
}

/// Cases that belong to another property only.
pub fn out_of_scope(prop: &str, e: &Expected) -> bool {
    match prop {
        "C01" | "C02" => e.notes.implied_head,
        _ => false,
    }
}

pub fn labels(fam: &Family, r: &ReqCase, e: &Expected) -> Vec<&'static str> {
    let n = &e.notes;
    let mut l = Vec::new();
    match &e.result {
        Ok(_) => l.push("ok"),
        Err(ExpErr::Own { status, .. }) => l.push(match status {
            404 => "err404",
            405 => "err405",
            400 => "err400",
            _ => "err-own",
        }),
        Err(_) => l.push("err-foreign"),
    }
    match n.stop_at.as_str() {
        "route404" => l.push("stop-route404"),
        "route405" => l.push("stop-route405"),
        "placeholder" => l.push("stop-placeholder"),
        "query" => l.push("stop-query"),
        "guard" => l.push("stop-guard"),
        "body" => l.push("stop-body"),
        "spy" => l.push("stop-spy"),
        _ => {}
    }
    for (b, s) in [
        (n.implied_head, "implied-head"),
        (n.fallback, "fallback"),
        (n.fallback_known_path, "fallback-known-path"),
        (n.merged, "merged-405"),
        (n.depth > 0, "forwarded"),
        (n.depth > 1, "forwarded-twice"),
        (n.placeholders > 0, "placeholder"),
        (n.placeholders > 1, "placeholders>1"),
        (n.query_used, "query"),
        (n.guards > 0, "guard"),
        (n.guards > 1, "guards>1"),
        (n.body_used, "body"),
        (n.allowed_filtered > 0, "allowed-filtered"),
        (n.later_route, "later-route"),
        (n.field_order_differs, "field-order"),
        (fam.ctx.is_some(), "context"),
        (r.method == "HEAD", "head"),
        (r.form != UriForm::Origin, "odd-uri"),
        (r.path == "*", "star"),
        (r.body.chunks.len() > 1, "chunked"),
        (r.body.fail, "stream-fails"),
        (!METHODS.contains(&r.method.as_str()), "extension-method"),
        (e.events.iter().any(|s| s.contains('[')), "context-seen"),
    ] {
        if b {
            l.push(s);
        }
    }
    l
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "declarations and requests drawn from seeded tapes; non-trivial: the request matches a declared pattern, or misses every pattern while having as many segments as one of them",
        "C02" => "non-trivial: at least one placeholder is converted or fails to convert",
        "C03" => "non-trivial: the request is HEAD or GET and reaches a variant of a router (dispatched by an implied or explicit route)",
        "C04" => "non-trivial: the path matches a declared pattern and the method is not accepted",
        "C05" => "non-trivial: the request is handed to a forward field (routed or fallback)",
        "C06" => "non-trivial: at least one guard is run",
        "C07" => "non-trivial: a query-parameters field is decoded",
        "C08" => "non-trivial: a body field is decoded",
        "C09" => "non-trivial: a guard, body or forward target observes a non-empty context part",
        "C15" => "non-trivial: the selected variant has at least one placeholder, query, guard, body or forward field",
        "C17" => "non-trivial: the model expects an error, or a body, guard or placeholder is processed",
        "C18" => "non-trivial: the selected variant of a generic declaration has a decoded field",
        "C20" => "non-trivial: the selected variant has at least one placeholder, query, guard, body or forward field; the request is abandoned after a generated number of polls or runs to its end",
        "C19" => "non-trivial: the response comes from a variant with a decoded field, or is an error response",
        _ => "every case",
    }
}

pub fn nontrivial(prop: &str, fam: &Family, r: &ReqCase, e: &Expected) -> bool {
    let n = &e.notes;
    let fields = n.placeholders > 0 || n.query_used || n.guards > 0 || n.body_used || n.depth > 0;
    match prop {
        "C01" => {
            if e.notes.variant.is_some() || n.stop_at == "route405" {
                return true;
            }
            let segs = r.eff_path().split('/').count() - 1;
            fam.routers[fam.mains[r.main]]
                .variants
                .iter()
                .flat_map(|v| v.routes.iter())
                .any(|p| {
                    p.pattern.segs.len() == segs
                        || matches!(p.pattern.segs.last(), Some(Seg::Rest(_))) && segs >= p.pattern.segs.len()
                })
        }
        "C02" => n.placeholders > 0 || n.stop_at == "placeholder",
        "C03" => (r.method == "HEAD" || r.method == "GET") && n.variant.is_some() && !n.fallback,
        "C04" => n.stop_at == "route405",
        "C05" => n.depth > 0 || n.fallback || e.events.iter().any(|s| s.starts_with("spy")),
        "C06" => n.guards > 0,
        "C07" => n.query_used,
        "C08" => n.body_used,
        "C09" => e.events.iter().any(|s| s.contains('[')),
        "C17" => e.result.is_err() || n.body_used || n.guards > 0 || n.placeholders > 0,
        "C19" => e.result.is_err() || fields,
        _ => fields,
    }
}
