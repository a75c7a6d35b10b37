extern crate hpl_mailbox;
extern crate hpl_validator_announce;
extern crate hpl_hook_aggregate;
extern crate hpl_hook_fee;
extern crate hpl_hook_merkle;
extern crate hpl_hook_pausable;
extern crate hpl_hook_routing_custom;
extern crate hpl_hook_routing_fallback;
extern crate hpl_hook_routing;
extern crate hpl_igp;
extern crate hpl_igp_oracle;
extern crate hpl_ism_aggregate;
extern crate hpl_ism_multisig;
extern crate hpl_ism_pausable;
extern crate hpl_ism_routing;
extern crate hpl_warp_cw20;
extern crate hpl_warp_native;
extern crate hpl_connection;
extern crate hpl_interface;
extern crate hpl_ownable;
extern crate hpl_pausable;
extern crate hpl_router;
extern crate hpl_utils;
