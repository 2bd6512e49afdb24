//! Properties seen from the neighbours: cases made for one property in which another one can break as well. Each part keeps only
//! the failures that are about the property it belongs to.
use super::envelope::{check_in, check_plain, in_case_of, plain_case};
use super::forge::check_onion_leak;
use super::prior::{carry_case, check_carry, check_prior, prior_case};
use super::routing::{check_onion, check_rewrap, check_route, onion_case, rewrap_case, route_case};
use super::style::{borrowed, check_layers, check_token, layers_case};
use super::Prop;
use crate::gen::*;
use crate::part;
use crate::rt::*;
use proptest::prelude::*;

pub fn extend(v: &mut [Prop]) {
    for p in v {
        let (more, rule): (Vec<Box<dyn DynPart>>, &str) = match p.id {
            "C03" => (
                vec![
                    part!("routed", 8000, 200000, |_| route_case(), |c, o| only(check_route(c, o), &["core", "content", "recipient-fails"])),
                    part!("carrying", 6000, 150000, |_| carry_case(), |c, o| only(check_carry(c, o), &["message", "unpack-fails"])),
                ],
                "Also: packed for mediators and opened by them on the way (C20's cases), and carrying rotation tokens (C15's).",
            ),
            "C04" => (
                vec![
                    part!("inbound", 10000, 250000, |_| in_case_of(small_message), |c, o| only(check_in(c, o), &["metadata"])),
                    part!("routed", 8000, 200000, |_| route_case(), |c, o| only(check_route(c, o), &["metadata", "to-kids", "from-kid", "sign-kid"])),
                    part!("rewrapped", 6000, 150000, |_| rewrap_case(), |c, o| only(check_rewrap(c, o), &["metadata", "authenticated", "re-wrapped"])),
                    part!("carrying", 6000, 150000, |_| carry_case(), |c, o| only(check_carry(c, o), &["metadata"])),
                    part!("styled", 6000, 150000, |_| layers_case(), |c, o| only(check_layers(c, o), &["metadata"])),
                ],
                "Also the metadata of: messages of the reference implementation in every layout and JSON style (C06's and C33's cases), packed for mediators (C20's), re-wrapped by mediators (C22's), carrying rotation tokens (C15's).",
            ),
            "C05" => (
                vec![
                    part!("onion", 5000, 120000, |_| onion_case(), |c, o| only(check_onion(c, o), &["onion", "onion-id", "content"])),
                    part!("token", 8000, 150000, |_| prior_case(), |c, o| only(check_prior(c, o), &["wire"])),
                    part!("plaintext", 10000, 200000, |_| plain_case(), |c, o| only(check_plain(c, o), &["wire"])),
                ],
                "Also: onions (C19's cases), rotation tokens (C14's) and plaintext (C01's).",
            ),
            "C06" => (
                vec![
                    part!("styled", 10000, 250000, |_| layers_case(), |c, o| only(check_layers(c, o), &["unpack-fails", "message", "metadata"])),
                    part!("token", 5000, 120000, |_| (prior_case(), style(), borrowed()).boxed(), |c, o| only(check_token(c, o), &["token", "claims", "key"])),
                    part!("forwarded", 6000, 150000, |_| rewrap_case(), |c, o| only(check_rewrap(c, o), &["unpack-fails", "message", "forward", "metadata"])),
                ],
                "Also: any JSON style at every layer (C33's cases), rotation tokens (C33's) and forwards (C22's) of the reference implementation.",
            ),
            "C10" => (
                vec![part!("onion", 6000, 150000, |_| onion_case(), check_onion_leak)],
                "Also: onions, whose layers must show nothing of what they hold and share no randomness (non-trivial: two layers or more).",
            ),
            "C12" => (
                vec![part!("token", 10000, 200000, |_| prior_case(), |c, o| only(check_prior(c, o), &["issuer-kid", "pack-fails"]))],
                "Also: the issuer's key for rotation tokens (C14's cases).",
            ),
            "C14" => (
                vec![part!("carried", 8000, 150000, |_| carry_case(), |c, o| only(check_carry(c, o), &["altered-accepted", "issuer-not-signer", "packed-anyway"]))],
                "Also: tokens carried by messages (C15's cases).",
            ),
            "C19" => (
                vec![part!("packed", 8000, 200000, |_| route_case(), |c, o| only(check_route(c, o), &["onion", "onion-id", "content", "core"]))],
                "Also: the onions that packing for encryption makes (C20's cases).",
            ),
            _ => continue,
        };
        p.parts.extend(more);
        p.rule = format!("{} {rule}", p.rule);
    }
}
