// ---- trusted: HashMap::get_mut (vstd has no contract for it): the borrowed slot is the one of the key, nothing else changes
#[verifier::external_body] pub fn vp_slot<'a, K: std::cmp::Eq + std::hash::Hash, V>(m: &'a mut std::collections::HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
    ensures match r {
        Some(v) => old(m)@.dom().contains(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)) && (*final(v) == *v ==> *final(m) == *old(m)),
        None => !old(m)@.dom().contains(*k) && *final(m) == *old(m),
    }
{ m.get_mut(k) }
