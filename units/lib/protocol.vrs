use vstd::multiset::Multiset;
// ---------- a joint execution: one value of type Sh stands for the shares all parties hold of one secret ----------
// Every party runs the same code on its own share; what the parties' shares mean together is the secret sec().
// Pr is the protocol value a party passes around, seen by all parties at once; its logs record, over the whole run,
// what was opened, which multiplication triples and random sharings were used up, and what was contributed.
#[verifier::external_body] // opaque: the share type parameter S
pub struct Sh { _p: () }
#[verifier::external_body] // opaque: the protocol type parameter P
pub struct Pr { _p: () }
impl Sh { pub uninterp spec fn sec(&self) -> int; }
impl Pr {
    pub uninterp spec fn opened(&self) -> Multiset<int>;
    pub uninterp spec fn triples(&self) -> Seq<(Sh, Sh, Sh)>;
    pub uninterp spec fn given(&self) -> Seq<int>;
    pub uninterp spec fn parties(&self) -> nat;
}
#[verifier::external_body] // a secret is a field element
pub proof fn sec_range(s: Sh) ensures 0 <= s.sec() < p() {}
impl Clone for Sh { #[verifier::external_body] // derived or structural Clone of the share type
    fn clone(&self) -> (r: Sh) ensures r == *self { unimplemented!() } }
#[verifier::external_body] // a tuple clone clones its parts (core)
pub proof fn clone_sh2(a: (Sh, Sh), b: (Sh, Sh)) requires cloned(a, b) ensures a == b {}
#[verifier::external_body] // a tuple clone clones its parts (core)
pub proof fn clone_sh3(a: (Sh, Sh, Sh), b: (Sh, Sh, Sh)) requires cloned(a, b) ensures a == b {}
pub proof fn same2(a: Seq<(Sh, Sh)>, b: Seq<(Sh, Sh)>) requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> cloned::<(Sh, Sh)>(#[trigger] a[i], b[i]) ensures a == b
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { clone_sh2(a[i], b[i]); } assert(a =~= b); }
pub proof fn same3(a: Seq<(Sh, Sh, Sh)>, b: Seq<(Sh, Sh, Sh)>) requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> cloned::<(Sh, Sh, Sh)>(#[trigger] a[i], b[i]) ensures a == b
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { clone_sh3(a[i], b[i]); } assert(a =~= b); }
/// contributions were distributed; nothing was opened and no triple used
pub open spec fn only_gave(a: Pr, b: Pr) -> bool { a.opened() == b.opened() && a.triples() == b.triples() && a.parties() == b.parties() }
/// nothing but the listed logs changed
pub open spec fn frame_open(a: Pr, b: Pr) -> bool { a.triples() == b.triples() && a.given() == b.given() && a.parties() == b.parties() }
pub open spec fn frame_triples(a: Pr, b: Pr) -> bool { a.opened() == b.opened() && a.given() == b.given() && a.parties() == b.parties() }
pub open spec fn triple_ok(t: (Sh, Sh, Sh)) -> bool { t.2.sec() == md(t.0.sec() * t.1.sec()) }
impl Pr {
    // LinearSharingScheme: S03 discharges this for the Shamir implementation
    #[verifier::external_body] // LinearSharingScheme contract (S03)
    pub fn add_shares(lhs: &Sh, rhs: &Sh) -> (r: Sh) ensures r.sec() == md(lhs.sec() + rhs.sec()) { unimplemented!() }
    #[verifier::external_body] // LinearSharingScheme contract (S03)
    pub fn sub_shares(lhs: &Sh, rhs: &Sh) -> (r: Sh) ensures r.sec() == md(lhs.sec() - rhs.sec()) { unimplemented!() }
    #[verifier::external_body] // LinearSharingScheme contract (S03)
    pub fn add_scalar(share: &Sh, scalar: &F) -> (r: Sh) ensures r.sec() == md(share.sec() + scalar@) { unimplemented!() }
    #[verifier::external_body] // LinearSharingScheme contract (S03)
    pub fn sub_scalar(share: &Sh, scalar: &F) -> (r: Sh) requires can(*scalar) ensures r.sec() == md(share.sec() - scalar@) { unimplemented!() }
    #[verifier::external_body] // LinearSharingScheme contract (S03)
    pub fn multiply_scalar(share: &Sh, scalar: &F) -> (r: Sh) ensures r.sec() == md(share.sec() * scalar@) { unimplemented!() }
    #[verifier::external_body] // LinearSharingScheme contract (S03)
    pub fn sum_shares(shares: &[Sh]) -> (r: Option<Sh>) ensures shares@.len() == 0 ==> r.is_none(), shares@.len() > 0 ==> r.is_some() && r.unwrap().sec() == md(ssum(shares@)) { unimplemented!() }
    #[verifier::external_body] // CliqueCommunicationScheme: all parties reveal their shares of one secret (reconstruction: S01)
    pub fn reveal_shares(&mut self, share: Sh) -> (r: F) ensures can(r), r@ == share.sec(), final(self).opened() == old(self).opened().insert(share.sec()), frame_open(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] // CliqueCommunicationScheme: every party distributes a secret; the shares collected are of the secrets of all parties
    pub fn distribute_secret(&mut self, secret: F) -> (r: Vec<Sh>)
        requires can(secret)
        ensures r@.len() == old(self).parties(), old(self).parties() >= 1, final(self).given() == old(self).given() + Seq::new(r@.len(), |i: int| r@[i].sec()), (exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i].sec() == secret@),
            final(self).opened() == old(self).opened(), final(self).triples() == old(self).triples(), final(self).parties() == old(self).parties() { unimplemented!() }
    #[verifier::external_body] // BeaverCommunicationScheme: fresh triples, used by nobody else
    pub fn obtain_beaver_triples(&mut self, count: usize) -> (r: Vec<(Sh, Sh, Sh)>)
        ensures r@.len() == count, (forall|i: int| 0 <= i < count ==> triple_ok(#[trigger] r@[i])), final(self).triples() == old(self).triples() + r@, frame_triples(*old(self), *final(self)) { unimplemented!() }
}
pub open spec fn ssum(s: Seq<Sh>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ssum(s.drop_last()) + s.last().sec() } }
