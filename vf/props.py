"""What is run for each property."""
import core
import props_bytes, props_rt, props_feat, props_gen, props_hdr, props_panic, props_pairs, props_async

CHECKS, META, NA = {}, {}, {}
for m in (props_bytes, props_rt, props_feat, props_gen, props_hdr, props_panic, props_pairs, props_async):
    CHECKS.update(m.CHECKS)
    META.update(m.META)
