"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
MB='contracts/core/mailbox/src/'; IF='packages/interface/src/'

prop('C01','A message is processed at most once',
 'The mailbox accepts a delivery of a given message at most once: a delivery whose message id is already recorded as delivered is rejected, and every accepted delivery records the id so that the delivered-query answers true from then on. No operation of the mailbox ever removes or rewrites a delivery record, and delivering one message does not mark any other message delivered.',
 ['inputs','histories'],'every stored state of the mailbox, every message and metadata, every sender; every sequence of mailbox operations (inductively, one operation at a time over an arbitrary delivery map)',
 'Tests deliver one or two fixed messages; the guarantee ranges over all delivery maps, all messages and all operation sequences.',
 [MB+'execute.rs',MB+'contract.rs',MB+'query.rs',MB+'state.rs'],
 [('process: rejects an id already in the delivery map, then saves it','contracts/core/mailbox/src/execute.rs process'),('message_delivered query','contracts/core/mailbox/src/query.rs')],
 [('deliveries','message id -> delivery record','contracts/core/mailbox/src/state.rs DELIVERIES')],['mailbox execute Process response and storage','mailbox query MessageDelivered'])
prop('C02','Only authenticated messages for this chain reach their recipient',
 'The mailbox delivers a message only if it has the protocol version, is addressed to the local domain, and was accepted by the security module the recipient names (the default one if it names none) when asked about exactly the given metadata and message. An accepted delivery calls exactly one contract - the recipient encoded in the message - once, with exactly the origin, sender and body of the message and no funds. The recipient-module query names exactly the module a delivery to that recipient asks.',
 ['inputs','configurations'],'every message, metadata, mailbox configuration and every possible answer of the recipient and of the security module',
 'Tests use two or three hand-built messages and a mock module that always answers the same; the property is about all encodings, answers and configurations.',
 [MB+'execute.rs',IF+'types/message.rs',IF+'ism/mod.rs',IF+'core/mod.rs'],
 [('process','contracts/core/mailbox/src/execute.rs process'),('recipient ISM lookup','packages/interface/src/ism/mod.rs recipient'),('ISM verify query','packages/interface/src/ism/mod.rs verify')],
 [('config','default ISM, local domain','contracts/core/mailbox/src/state.rs CONFIG')],['mailbox execute Process response messages'])
prop('C03','Dispatch commits to the right message and advances the nonce by one',
 'A successful dispatch produces the message (protocol version, current nonce, local domain, caller as 32-byte sender, requested destination, recipient and body), hands exactly that message to the required hook and to the chosen hook (the default hook if none is given), returns the hash of that message as its id and records it as the latest dispatched id. The nonce grows by exactly one per successful dispatch, no other operation changes it, and a recipient address longer than 32 bytes is rejected.',
 ['inputs','histories','configurations'],'every dispatch request, sender, nonce, configuration and every hook quote',
 'Tests dispatch a few fixed messages with nonce zero or one; the property is over all nonces, domains, bodies, hooks and histories.',
 [MB+'execute.rs',MB+'state.rs',MB+'query.rs',IF+'core/mailbox.rs',IF+'types/message.rs'],
 [('dispatch','contracts/core/mailbox/src/execute.rs dispatch'),('DispatchMsg::to_msg / message encoding','packages/interface/src/core/mailbox.rs, packages/interface/src/types/message.rs')],
 [('nonce','next message nonce','contracts/core/mailbox/src/state.rs NONCE'),('latest dispatched id','id of last dispatched message','contracts/core/mailbox/src/state.rs LATEST_DISPATCHED_ID')],['mailbox execute Dispatch response, data and storage'])
prop('C04','Dispatch forwards every attached coin to the hooks and keeps none',
 'In a successful dispatch the required hook receives exactly the fee it quoted for that message and the other hook receives everything else the caller attached, so the coins sent out are exactly the coins attached. If the attached coins do not cover the required hook fee, the dispatch fails.',
 ['inputs','configurations'],'every set of attached coins, every quote of the required hook',
 'Tests try a few single-denomination amounts; the property ranges over all amounts, denominations and quotes.',
 [MB+'execute.rs',IF+'hook/mod.rs'],
 [('dispatch fee split','contracts/core/mailbox/src/execute.rs dispatch'),('quote_dispatch / post_dispatch','packages/interface/src/hook/mod.rs')],
 [],['mailbox execute Dispatch response messages'])
prop('C05','Mailbox dispatch quote covers required hook plus chosen hook',
 'The mailbox quote for a dispatch request is the sum, per denomination, of the quotes of the required hook and of the chosen (or default) hook for exactly the message that dispatching the request now would produce. Quoting never changes state.',
 ['inputs','configurations'],'every dispatch request, configuration and hook quote',
 'Tests query one or two quotes with fixed mock hooks.',
 [MB+'query.rs',IF+'core/mailbox.rs',IF+'hook/mod.rs'],
 [('quote_dispatch','contracts/core/mailbox/src/query.rs quote_dispatch')],[],['mailbox query QuoteDispatch'])
prop('C06','Ownership changes only by owner offer and nominee claim',
 'The owner of a contract changes only when the pending nominee claims it; a nominee is set only by the owner and only when none is pending, and is cleared only by the owner or by the claim. Calls by anyone else fail and change nothing, and the ownership queries report exactly the stored owner and nominee.',
 ['inputs','histories'],'every caller, every owner/nominee state, every ownership operation; histories by induction over single operations',
 'Tests walk one transfer scenario with fixed names; the property is for all callers and all interleavings of offers, revocations and claims.',
 ['packages/ownable/src/lib.rs',IF+'ownable.rs'],
 [('handle / init / revoke / claim','packages/ownable/src/lib.rs')],
 [('owner','current owner','packages/ownable/src/lib.rs OWNER'),('pending_owner','nominee','packages/ownable/src/lib.rs PENDING_OWNER')],['ownership execute and query of every ownable contract'])
prop('C07','Privileged configuration changes only on the owner\'s request',
 'In every contract, an operation that changes privileged configuration (default module or hooks, fees, beneficiary, gas and oracle data, validators and thresholds, sub-module lists, pause state, routes, connections, warp routes) succeeds only when the caller is the stored owner. When it is called by anyone else it fails, and operations open to everyone leave all of that configuration unchanged. The owner setting the default module, default hook or required hook of the mailbox replaces exactly that one, and the configuration queries of the mailbox report what is stored.',
 ['inputs','configurations'],'every contract, every execute message, every caller and stored owner',
 'Each test uses one owner and one stranger on a few messages; the property quantifies over all messages of all contracts.',
 ['packages/ownable/src/lib.rs','packages/connection/src/lib.rs','packages/router/src/lib.rs','packages/pausable/src/lib.rs',MB+'execute.rs','contracts/igps/core/src/execute.rs','contracts/igps/oracle/src/contract.rs','contracts/isms/multisig/src/contract.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/hooks/aggregate/src/lib.rs','contracts/hooks/fee/src/lib.rs','contracts/hooks/merkle/src/lib.rs','contracts/hooks/pausable/src/lib.rs','contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs','contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/contract.rs'],
 [('ensure owner guards','packages/ownable/src/lib.rs get_owner and each contract execute')],
 [('owner','current owner','packages/ownable/src/lib.rs OWNER')],['execute entry point of every contract'])
prop('C08','Wire encodings round-trip exactly',
 'Encoding then decoding a message, a validator-signature metadata, an aggregate-module metadata (decoded for its modules in address order), a gas-payment metadata or a warp transfer gives back the original value, and decoding never reads a field from the wrong bytes. The layouts are the fixed big-endian layouts of the protocol, for every field value and every body length.',
 ['inputs'],'every field value and every body, signature-list and entry-list length the format can carry',
 'Tests round-trip one or two values per type; layout slips on particular lengths or values are invisible to them.',
 [IF+'types/message.rs',IF+'types/metadata.rs',IF+'warp/mod.rs'],
 [('Message From/Into HexBinary','packages/interface/src/types/message.rs'),('metadata From/Into HexBinary','packages/interface/src/types/metadata.rs'),('warp Message From/Into HexBinary','packages/interface/src/warp/mod.rs')],[],['encoding and decoding functions'])
prop('C09','Message id is the Keccak-256 hash of the complete encoded message',
 'The id of a message is the Keccak-256 hash of its full wire encoding, so every field and every byte of the body contributes; the validator digests and storage-location hashes are the documented nested hashes of their inputs with the Ethereum signed-message prefix.',
 ['inputs'],'every message; every domain, merkle-tree address, root, index and message id',
 'Tests compare a handful of constants.',
 [IF+'types/message.rs',IF+'types/crypto.rs','contracts/isms/multisig/src/lib.rs','contracts/isms/multisig/src/query.rs','contracts/core/va/src/contract.rs'],
 [('Message::id','packages/interface/src/types/message.rs'),('keccak256_hash, eth_hash','packages/interface/src/types/crypto.rs'),('domain_hash / multisig_hash','contracts/isms/multisig/src/lib.rs'),('announcement_hash, replay_hash','contracts/core/va/src/contract.rs')],[],['id and digest functions'])
prop('C10','The merkle tree is the append-only depth-32 tree of the protocol',
 'After any sequence of insertions the tree root equals the root of the depth-32 Keccak merkle tree whose leaves are the inserted hashes in order, padded with zero leaves; the count equals the number of insertions, and an insertion changes nothing else. Recomputing a root from a leaf, its index and a branch combines them in the order given by the bits of the index.',
 ['inputs','histories'],'every tree state reachable by insertions (all counts below 2^32), every leaf',
 'Tests insert a few fixed leaves from a vector file; the property ranges over all counts and leaves.',
 [IF+'types/merkle.rs'],[('MerkleTree::insert, root_with_ctx, branch_root, zero_hashes','packages/interface/src/types/merkle.rs')],
 [('branch/count','incremental tree state','packages/interface/src/types/merkle.rs MerkleTree')],['MerkleTree operations','merkle hook queries'])
prop('C11','The merkle hook inserts exactly the messages the mailbox dispatched',
 'The merkle hook inserts a leaf only when post-dispatch reports a message whose id is the latest id dispatched by the configured mailbox; the leaf is that id and exactly one leaf is added. Its root, count, checkpoint and tree queries describe the stored tree, and its quote is empty.',
 ['inputs','configurations'],'every message, stored tree and mailbox answer',
 'Tests post one message through a mock mailbox.',
 ['contracts/hooks/merkle/src/lib.rs',IF+'hook/merkle.rs'],[('PostDispatch handler','contracts/hooks/merkle/src/lib.rs execute'),('checkpoint queries','contracts/hooks/merkle/src/lib.rs')],
 [('message_tree','the tree','contracts/hooks/merkle/src/lib.rs MESSAGE_TREE'),('mailbox','trusted mailbox','contracts/hooks/merkle/src/lib.rs')],['merkle hook execute and query'])
prop('C12','Multisig module verifies only with a threshold of distinct enrolled signers',
 'The multisig module reports a message verified exactly when at least the threshold configured for the message\'s origin domain of pairwise distinct validators enrolled for that domain signed the digest of that message\'s id, origin domain and the merkle root, tree address and index in the metadata. A domain with no validators or threshold never verifies.',
 ['inputs','configurations'],'every message, metadata with any number of signatures, enrolled set, threshold and recovery outcome',
 'Tests check one real signature bundle; repeated signers, wrong domains, reordered and partial bundles of any length are not covered.',
 ['contracts/isms/multisig/src/query.rs','contracts/isms/multisig/src/lib.rs',IF+'types/metadata.rs'],[('verify_message','contracts/isms/multisig/src/query.rs'),('multisig_hash','contracts/isms/multisig/src/lib.rs')],
 [('validators','domain -> validator set','contracts/isms/multisig/src/state.rs VALIDATORS'),('threshold','domain -> threshold','contracts/isms/multisig/src/state.rs THRESHOLD')],['multisig ISM query Verify'])
prop('C13','Multisig configuration is well-formed and per-domain',
 'Setting the validators and threshold of a domain succeeds only with 20-byte validator addresses and a threshold that is not zero and not above the number of listed validators, stores exactly those, and leaves every other domain as it was; un-setting removes only the named domain. The enrolled-validators queries report exactly what is stored for the origin domain.',
 ['inputs','histories'],'every domain, validator list, threshold and stored configuration',
 'Tests set one or two domains.',
 ['contracts/isms/multisig/src/contract.rs','contracts/isms/multisig/src/query.rs',IF+'ism/multisig.rs'],[('execute SetValidators/UnsetDomain','contracts/isms/multisig/src/contract.rs'),('validate','packages/interface/src/ism/multisig.rs')],
 [('validators','domain -> validator set','contracts/isms/multisig/src/state.rs'),('threshold','domain -> threshold','contracts/isms/multisig/src/state.rs')],['multisig ISM execute/query'])
prop('C14','Aggregate module verifies only when a threshold of its modules do',
 'The aggregate module reports a message verified exactly when, of its distinct configured modules that the metadata supplies an entry for, at least the configured threshold accept the message with their own metadata entry; a module without an entry is never asked, a repeated module counts once, and a module that fails to answer before the threshold is reached fails the verification. Its configured threshold is always at least one and at most the number of modules.',
 ['inputs','configurations'],'every module list, threshold, metadata and module answer',
 'Tests use two mock modules that always accept.',
 ['contracts/isms/aggregate/src/lib.rs',IF+'types/metadata.rs'],[('verify','contracts/isms/aggregate/src/lib.rs query'),('SetIsms/instantiate validation','contracts/isms/aggregate/src/lib.rs')],
 [('isms','module list','contracts/isms/aggregate/src/lib.rs ISMS'),('threshold','required acceptances','contracts/isms/aggregate/src/lib.rs THRESHOLD')],['aggregate ISM query Verify, execute SetIsms, instantiate'])
prop('C15','Routing module delegates to the module set for the origin domain',
 'The routing module answers a verification with exactly the answer of the module configured for the message\'s origin domain, asked about the same metadata and message, and fails when none is configured. Setting, adding or removing a domain\'s module affects only that domain, and its verify-info and route queries report that same module.',
 ['inputs','configurations','histories'],'every message, metadata, route table and module answer',
 'Tests cover one or two domains with fixed answers.',
 ['contracts/isms/routing/src/contract.rs','packages/router/src/lib.rs'],[('verify/route queries','contracts/isms/routing/src/contract.rs')],
 [('modules','domain -> module','contracts/isms/routing/src/state.rs MODULES')],['routing ISM query and execute'])
prop('C16','Pausing blocks and unpausing restores, for module and hook alike',
 'While paused, the pausable module rejects every verification and the pausable hook rejects every post-dispatch; while not paused both accept. Pausing an already paused contract, or unpausing a running one, fails, and the paused query reports the stored state.',
 ['inputs','histories'],'every pause state, caller, message and history (one operation at a time)',
 'Tests walk a fixed pause/unpause sequence.',
 ['packages/pausable/src/lib.rs','contracts/isms/pausable/src/lib.rs','contracts/hooks/pausable/src/lib.rs'],[('handle, get_pause_info','packages/pausable/src/lib.rs'),('verify / post dispatch','contracts/isms/pausable/src/lib.rs, contracts/hooks/pausable/src/lib.rs')],
 [('pause','paused flag','packages/pausable/src/lib.rs PAUSED_KEY')],['pausable ISM/hook execute and query'])
prop('C17','Routing hooks pick the right hook, and quote and post use the same one',
 'For every message the routing hooks select the hook registered for (destination, recipient) if any, else the hook of the destination domain, else the fallback (each kind of routing hook using the levels it has; the fallback kind needs its fallback configured), failing when none applies. Post-dispatch forwards exactly the given metadata and message and the attached coins to the selected hook, and the quote is exactly that hook\'s quote for them. Hooks are registered only for 32-byte recipients and valid hook addresses, every well-formed request by the owner is accepted, and the listing query returns exactly the registered entries, in order.',
 ['inputs','configurations'],'every message, metadata, route table, custom-hook table, fallback and quote',
 'Tests cover one route per level with fixed messages.',
 ['contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs'],[('route / post_dispatch / quote_dispatch','contracts/hooks/routing*/src/lib.rs')],
 [('routes','domain -> hook','packages/router/src/lib.rs'),('custom_hooks','(domain, recipient) -> hook','contracts/hooks/routing-custom/src/lib.rs'),('fallback_hook','fallback','contracts/hooks/routing-fallback/src/lib.rs')],['routing hooks execute PostDispatch and query QuoteDispatch'])
prop('C18','The aggregate hook calls every hook once with its quoted fee',
 'Post-dispatch on the aggregate hook calls every configured hook exactly once, in order, with the given metadata and message and exactly the fee that hook quotes for them. Its own quote is the sum of those fees per denomination.',
 ['inputs','configurations'],'every hook list of any length, message, metadata and quote',
 'Tests use two hooks with fixed fees.',
 ['contracts/hooks/aggregate/src/lib.rs'],[('PostDispatch, quote_dispatch','contracts/hooks/aggregate/src/lib.rs')],[('hooks','hook list','contracts/hooks/aggregate/src/lib.rs HOOKS')],['aggregate hook execute PostDispatch and query QuoteDispatch'])
prop('C19','The fee hook charges its fee and only its owner can take the money out',
 'Post-dispatch on the fee hook succeeds only if the caller attached exactly one kind of coin, the configured one, in at least the configured amount, and the quote is exactly the configured fee. Only the owner can claim, a claim sends the hook\'s whole balance to the chosen recipient (the owner if none given) and nothing else ever moves funds out.',
 ['inputs','configurations'],'every fee, attached coin set, caller, recipient and balance',
 'Tests use a couple of amounts.',
 ['contracts/hooks/fee/src/lib.rs'],[('PostDispatch, Claim, quote_dispatch','contracts/hooks/fee/src/lib.rs')],[('coin_fee','configured fee','contracts/hooks/fee/src/lib.rs COIN_FEE_KEY')],['fee hook execute and query'])
prop('C20','Gas payment charges exactly the quote and refunds the rest',
 'Paying for gas succeeds only when the caller attaches at least the quoted price in the gas token, keeps exactly the quote and refunds the remainder to the refund address; the quote is gas amount times gas price times exchange rate over the fixed scale, with the oracle data of the destination domain (default gas when the metadata names none). Only the beneficiary receives collected payments, and only its claim moves them.',
 ['inputs','configurations'],'every gas amount, gas price, exchange rate, payment, metadata, oracle answer, gas table and balance',
 'Tests check a few products; overflow, rounding, zero and mixed-coin cases over the whole range are not reachable by samples.',
 ['contracts/igps/core/src/execute.rs','contracts/igps/core/src/query.rs',IF+'types/metadata.rs'],[('pay_for_gas, post_dispatch, claim','contracts/igps/core/src/execute.rs'),('quote_gas_payment, quote_dispatch, get_default_gas','contracts/igps/core/src/query.rs')],
 [('gas_token','accepted token','contracts/igps/core/src/lib.rs'),('gas_for_domain','per-domain default gas','contracts/igps/core/src/lib.rs'),('beneficiary','who may claim','contracts/igps/core/src/lib.rs')],['IGP execute PayForGas/PostDispatch/Claim and queries'])
prop('C21','The gas oracle reports exactly the last data set for a domain',
 'After the owner sets the exchange rate and gas price of a domain, the oracle answers that domain with exactly those values until they are set again, and other domains are unaffected; in a batch the last entry of a domain wins. A zero exchange rate is never stored, and a domain never set has no answer.',
 ['inputs','histories'],'every domain, data, batch of any length and stored table',
 'Tests set two domains.',
 ['contracts/igps/oracle/src/contract.rs',IF+'igp/oracle.rs'],[('SetRemoteGasData(Configs), GetExchangeRateAndGasPrice','contracts/igps/oracle/src/contract.rs')],[('remote_gas_data','domain -> data','contracts/igps/oracle/src/state.rs')],['oracle execute and query'])
prop('C22','Warp transfers conserve value in both directions',
 'An outgoing warp transfer takes exactly the stated amount of the route\'s token from the caller (locking a collateral token, burning a bridged one) and dispatches exactly one mailbox message, to the destination\'s registered route, encoding that amount and recipient; coins beyond the amount go only to the mailbox as fees. A failure to take the full amount fails the transfer, and nothing else moves tokens.',
 ['inputs','configurations'],'every amount, denomination, token mode, recipient, route table and attached coins',
 'Tests exercise a few amounts in each mode.',
 ['contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/conv.rs','contracts/warp/native/src/conv.rs',IF+'warp/mod.rs'],[('transfer_remote','contracts/warp/*/src/contract.rs')],[('token','bridged or collateral token','contracts/warp/*/src/lib.rs TOKEN'),('mode','token mode','contracts/warp/*/src/lib.rs MODE'),('routes','domain -> remote route','packages/router/src/lib.rs')],['warp execute TransferRemote response messages'])
prop('C23','Warp releases tokens only for messages from the enrolled remote route',
 'A warp route releases or mints tokens only when its configured mailbox delivers a message whose sender is exactly the route registered for the origin domain; it then releases exactly the encoded amount, once, to exactly the encoded recipient. Anyone else calling the delivery entry, an unregistered origin or another sender fails with no effect.',
 ['inputs','configurations'],'every caller, origin, sender, body, route table and token mode',
 'Tests exercise one valid and a few invalid deliveries.',
 ['contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/contract.rs','packages/router/src/lib.rs'],[('mailbox_handle','contracts/warp/*/src/contract.rs'),('get_route','packages/router/src/lib.rs')],[('mailbox','trusted mailbox','contracts/warp/*/src/lib.rs MAILBOX'),('routes','domain -> remote route','packages/router/src/lib.rs')],['warp execute Handle response messages'])
prop('C24','Routers and connections return exactly what was last set',
 'After the owner sets a domain\'s route, queries and users of that route see exactly it, un-setting removes it, other domains are untouched and a batch applies every entry; an unset domain has no route. Connections to a mailbox, module or hook likewise return exactly the last value set.',
 ['inputs','histories'],'every domain, route, batch of any length, stored table and connection message',
 'Tests set a few fixed routes.',
 ['packages/router/src/lib.rs','packages/connection/src/lib.rs'],[('handle, set_route, get_route, domains','packages/router/src/lib.rs'),('handle, query','packages/connection/src/lib.rs')],[('routes','domain -> route','packages/router/src/lib.rs'),('connections','mailbox/ism/hook addresses','packages/connection/src/lib.rs')],['router and connection execute and query'])
prop('C25','Validator announcements are authentic, never replayed and append-only',
 'A storage location is recorded for a validator only if the signature recovers exactly that validator\'s address over the digest of this chain\'s domain, this mailbox and that location, and only if the same announcement was never accepted before. Accepting one appends the location to that validator\'s list, leaves every other validator\'s list unchanged, and the queries report exactly the recorded lists in order.',
 ['inputs','histories'],'every validator, signature, location, stored tables and recovery outcome',
 'Tests use one recorded signature.',
 ['contracts/core/va/src/contract.rs','contracts/core/va/src/state.rs'],[('announce','contracts/core/va/src/contract.rs'),('announcement_hash, replay_hash','contracts/core/va/src/contract.rs')],[('storage_locations','validator -> locations','contracts/core/va/src/state.rs'),('replay_protections','accepted announcements','contracts/core/va/src/state.rs'),('validators','known validators','contracts/core/va/src/state.rs')],['va execute Announce and queries'])
prop('C26','Initialization stores exactly the requested configuration',
 'A successful instantiation of a contract stores exactly the requested owner, domain, connections, tokens and tables, with counters at zero, nothing delivered and no route or nominee; addresses are validated and invalid values rejected. Afterwards the configuration queries report those same values.',
 ['inputs','configurations'],'every instantiate message of every contract',
 'Tests instantiate each contract with one configuration.',
 ['contracts/core/mailbox/src/contract.rs','contracts/core/va/src/contract.rs','contracts/igps/core/src/contract.rs','contracts/igps/oracle/src/contract.rs','contracts/isms/multisig/src/contract.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/isms/pausable/src/lib.rs','contracts/hooks/aggregate/src/lib.rs','contracts/hooks/fee/src/lib.rs','contracts/hooks/merkle/src/lib.rs','contracts/hooks/pausable/src/lib.rs','contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs','contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/contract.rs'],[('instantiate','each contract')],[],['instantiate and configuration queries of every contract'])
prop('C27','Migration accepts only newer versions of the same contract',
 'A migration succeeds only when the stored contract name is this contract\'s name and the stored version is strictly lower than the code\'s; it then records the new version and touches no other state.',
 ['inputs','configurations'],'every stored name and version, every contract',
 'Only one happy path is tested.',
 ['packages/utils/src/lib.rs'],[('migrate','packages/utils/src/lib.rs and each contract migrate')],[('contract_info','cw2 name and version','cw2')],['migrate entry points'])
prop('C28','Address encodings convert faithfully between bech32 and 32-byte form',
 'Encoding 32 bytes as a human-readable address and decoding an address to 32 bytes agree: decoding the encoding returns the same bytes for every value, a short address is left-padded with zeros, and distinct addresses of one length and prefix never collide. An address longer than 32 bytes is rejected rather than truncated.',
 ['inputs'],'every byte string up to and beyond 32 bytes and every prefix',
 'Tests check a few fixed addresses.',
 [IF+'types/bech32.rs'],[('bech32_encode, bech32_decode, bech32_to_h256','packages/interface/src/types/bech32.rs')],[],['conversion functions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
