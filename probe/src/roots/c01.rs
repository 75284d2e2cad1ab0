use crate::parts::*;
use crate::prim::*;
use goggles::{tracked::Flagged, IntoJoinExt, MaskedStorage, RawStorage};

fn agree<V: Val>(m: &MaskedStorage<Contract<V>>, k: u32) {
    let held = m.raw_storage().present.get();
    check(m.contains(k) == held, "contains disagrees with the raw storage");
    check(m.mask().contains(k) == held, "the mask disagrees with the raw storage");
    check(m.get(k).is_some() == held, "get disagrees with the raw storage");
}

fn client<V: Val, S: RawStorage<Item = V>>(m: &mut MaskedStorage<S>, i: u32, op: usize) {
    match op {
        0 => { m.insert(i, V::make(1)); }
        1 => { m.remove(i); }
        2 => {
            let t = m.get_or_insert_with(i, || {
                if nondet() { user_panic() }
                V::make(1)
            });
            t.set(2);
        }
        3 => { if let Some(t) = m.get_mut(i) { t.set(2); } }
        4 => { let _ = m.get(i).is_some(); }
        5 => {
            if let Some(mut g) = m.get_guard(i) {
                g.get();
                g.get_mut();
            }
        }
        6 => { for t in (&*m).join() { if nondet() { user_panic() } } }
        7 => { for t in (&mut *m).join() { if nondet() { user_panic() } } }
        _ => { for mut t in m.guard().join() { t.get(); t.get_mut(); if nondet() { user_panic() } } }
    }
}

pub fn t_presence() {
    presence::<Tok>()
}
pub fn t_presence_plain() {
    presence::<Plain>()
}
pub fn t_presence_unit() {
    presence::<Unit>()
}
fn presence<V: Val>() {
    let k = any_index();
    track(k);
    gset(0, 1);
    let mut m: MaskedStorage<Contract<V>> = MaskedStorage::default();
    loop {
        begin();
        agree(&m, k);
        if nondet() { break; }
        let i = any_index();
        let op = any_usize(0, 8);
        catch(|| client(&mut m, i, op));
    }
    catch(|| drop(m));
}

/// the same through a tracking storage, whose own methods must keep the contract too
pub fn t_tracked() {
    through_tracked::<Tok>()
}
pub fn t_tracked_plain() {
    through_tracked::<Plain>()
}
pub fn t_tracked_unit() {
    through_tracked::<Unit>()
}
fn through_tracked<V: Val>() {
    let k = any_index();
    track(k);
    let mut m: MaskedStorage<Flagged<Contract<V>>> = MaskedStorage::default();
    loop {
        begin();
        if nondet() { break; }
        let i = any_index();
        let op = any_usize(0, 13);
        catch(|| match op {
            9 => m.set_track_modified(nondet()),
            10 => m.clear_modified(),
            11 => m.mark_modified(i),
            12 => { for t in m.modified().join() { if nondet() { user_panic() } } }
            13 => { for t in m.modified_mut().join() { if nondet() { user_panic() } } }
            _ => client(&mut m, i, op),
        });
    }
    catch(|| drop(m));
}
