NOTE={}
HOOKS=None
NA={'C22':"RleTree::drain is unimplemented at this commit: Drain::next, next_back and the removal itself are todo!(), so there is no behaviour to test; recorded as a finding in DESIGN.md"}
EXTRA_CHECKS=['C23','C24','C25','C27']
