Environment of the broker's tables: connections, abort handles, the world of observable effects.
#include prelude.vc
#env
// ---------- opaque handles
#[verifier::external_body]
pub struct Connection { x: () }
impl Clone for Connection { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// what can be observed of the broker's tables: which task was stopped
#[verifier::external_body]
pub struct AbortHandle { x: () }
#[verifier::external_body]
pub tracked struct World { x: () }
/// everything else that can be observed (the trace of the broker's tasks, see broker_env.vc)
#[verifier::external_body]
pub struct Rest { x: () }
impl World {
    pub uninterp spec fn aborted(&self) -> Seq<AbortHandle>;
    pub uninterp spec fn rest(&self) -> Rest;
}
impl AbortHandle {
    #[verifier::external_body]
    pub fn abort(&self, Tracked(w): Tracked<&mut World>) ensures final(w).aborted() == old(w).aborted().push(*self), final(w).rest() == old(w).rest() { unimplemented!() }
}
#end
#effects abort
