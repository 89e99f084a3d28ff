"""All rules."""
from . import base, r_codec, r_num, r_ledger, r_chain, r_store, r_block, r_misc, r_epoch, r_more, r_avail, r_gen
