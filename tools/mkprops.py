#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property texts live here so that they are easy to edit and diff."""
import json, os

PID = "common/src/payment_id.rs"
AID = "common/src/multilocation_asset_id.rs"
PAY = "pallets/payments/src/lib.rs"
PAYT = "pallets/payments/src/types.rs"
COM = "pallets/communities/src/lib.rs"
COMF = "pallets/communities/src/functions.rs"
COMI = "pallets/communities/src/impls.rs"
COMT = "pallets/communities/src/types.rs"
COMO = "pallets/communities/src/origin.rs"
MGR = "pallets/communities-manager/src/lib.rs"
RT = "runtime/kreivo/src/lib.rs"
RTI = "runtime/kreivo/src/impls.rs"
RTP = "runtime/kreivo/src/payments.rs"
RTC = "runtime/kreivo/src/communities/mod.rs"
RTCG = "runtime/kreivo/src/communities/governance.rs"
RTCM = "runtime/kreivo/src/communities/memberships.rs"
RTK = "runtime/kreivo/src/collective/mod.rs"
RTKG = "runtime/kreivo/src/collective/governance.rs"
RTKT = "runtime/kreivo/src/collective/tracks.rs"
RTO = "runtime/kreivo/src/governance/origins.rs"
RTX = "runtime/kreivo/src/xcm_config.rs"
RTXC = "runtime/kreivo/src/xcm_config/communities.rs"
RTM = "runtime/kreivo/src/configuration/monetary_stuff.rs"
RTS = "runtime/kreivo/src/configuration/system_support.rs"
RTCT = "runtime/kreivo/src/contracts.rs"
RTF = "runtime/kreivo/src/constants.rs"
RTA = "runtime/kreivo/src/apis.rs"
RTW = "runtime/kreivo/src/weights/xcm/mod.rs"
RCONST = "runtime/runtime-constants/src/lib.rs"
RCOM = "runtime/common/src/impls.rs"
SPEC = "chain-spec-generator/src/spec/mod.rs"
SPECL = "chain-spec-generator/src/spec/local.rs"
SPECJ = "chain-spec-generator/src/spec/live/kreivo_paseador_chainspec.json"

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


NOBUILD = "The crate needs dependencies that cannot be fetched, so its tests do not even run here; where they run, they "

# ---------------------------------------------------------------- common
p("C01", "Payment ids and 64-bit numbers convert into each other without loss",
  "Turning any 64-bit number into a payment id and back gives the same number, and turning any payment id into its number "
  "and back gives the same id. The raw bytes of an id are exactly the little-endian bytes of its number.",
  ["inputs"], "all 2^64 numbers and all ids, in every build configuration of the crate",
  "One test checks the single value u64::MAX, whose bytes are all equal, so a swapped or overlapping field is invisible to it.",
  [PID], [("field packing from a number", PID + " From<u64> for PaymentId"),
          ("number from the id's bytes", PID + " From<PaymentId> for u64"),
          ("raw byte view", PID + " AsRef<[u8]>, to_bytes, to_number, from_number")],
  observe=["PaymentId::from_number", "PaymentId::to_number", "PaymentId::to_bytes", "AsRef<[u8]>"])
p("C02", "A payment id reports exactly the block and extrinsic it was issued for",
  "An id issued for a block number, an extrinsic index below 65536 and at least two extra bytes reports exactly that block and "
  "that extrinsic index. Two ids issued for a different block, index or first two extra bytes are never equal.",
  ["inputs"], "all blocks, indices and extra bytes of any length of two or more",
  "Tests build three ids and never read the block or index back; distinctness is a statement about pairs of inputs.",
  [PID], [("tuple constructor", PID + " From<(u32, u32, &[u8])>"),
          ("accessors", PID + " block_number, extrinsic_index")])
p("C03", "Parsing the printed form of a payment id gives back the same id",
  "For every payment id, parsing the text it prints as, plain or dashed, succeeds and gives that same id. The dashed form is the "
  "plain form with a single dash after its fifth character, and the string returned by the encode method is exactly the printed form asked for.",
  ["inputs"], "all 2^64 ids, both textual forms",
  "Tests print two ids and parse one; a text whose length differs (leading zero bytes, short numbers) is never tried.",
  [PID], [("printing", PID + " Display, encode"), ("parsing", PID + " FromStr, new")],
  observe=["format!", "str::parse", "PaymentId::encode", "PaymentId::new"])
p("C04", "Parsing arbitrary text as a payment id never panics and never guesses",
  "For every string, parsing ends with an id or with an error, in debug and in release builds, and never panics. "
  "An id is produced only when the text, with its first dash removed, is the complete printed form of that id; truncated, "
  "overlong or malformed text is an error, and the convenience constructor then yields the default id.",
  ["inputs"], "all strings of any length, with any number of dashes and any characters",
  "Tests parse one well-formed string; the panics and aliases are on inputs no test supplies.",
  [PID], [("length and alphabet handling", PID + " FromStr::from_str"), ("fallback", PID + " PaymentId::new")])
p("C05", "On chain, a payment id is encoded and decoded exactly as its 64-bit number",
  "The chain encoding of an id is the eight little-endian bytes of its number, and decoding consumes exactly eight bytes and gives the "
  "id with that number. The declared maximum size, fixed size, size hint and type description all agree with that encoding.",
  ["inputs"], "all ids and all byte inputs",
  "No test touches the chain codec: it is compiled only with a feature whose dependencies are not available.",
  [PID], [("codec", PID + " mod runtime: Encode, Decode, MaxEncodedLen, TypeInfo")])
p("C06", "Asset identifiers and cross-chain locations map to each other one to one",
  "Every asset identifier has a location, and reading that location back gives the same identifier. Every location that is recognised "
  "gives an identifier whose location is that same location, so two different locations never denote the same asset.",
  ["inputs"], "all identifiers, all locations",
  "There is no test for the conversions, and both directions are separate hand-written tables.",
  [AID], [("location to identifier", AID + " AsFungibleAssetLocation::convert"),
          ("identifier to location", AID + " AsFungibleAssetLocation::convert_back"),
          ("network conversion", AID + " TryFrom/From NetworkId")])
p("C07", "Reading a foreign location never panics and never truncates",
  "Reading any location as an asset identifier returns an identifier or nothing and never panics; a location whose parachain or asset "
  "number does not fit the identifier is refused rather than cut down to fit.",
  ["inputs"], "all locations that a remote chain can put in a message",
  "No test covers the conversion; the failing values are outside the range any example uses.",
  [AID], [("checked narrowing", AID + " AsFungibleAssetLocation::convert")])
p("C08", "A local asset's location names the pallet that holds the assets",
  "The location given to an asset of this chain names the index at which the runtime hosts its assets pallet, and the same index is "
  "required when such a location is read back.",
  ["configurations"], "the shared library's tables against the runtime's pallet table",
  "The two numbers live in different crates that no test builds together.",
  [AID, RT], [("pallet index in locations", AID + " convert, convert_back"), ("pallet table", RT + " mod runtime")])

p("C09", "A bare number denotes the local asset of that number",
  "Turning a 32-bit number into an asset identifier gives the asset of this chain that has exactly that number. The default identifier is "
  "the local asset with number zero.",
  ["inputs", "configurations"], "all 2^32 numbers, in every build configuration of the crate",
  "No test makes an identifier from a number, and every caller just passes the result on.",
  [AID], [("conversion from a number", AID + " From<u32>"), ("default", AID + " Default")])

p("C10", "Asset identifiers keep their stored form",
  "The encoded form of an asset identifier stays the one already in storage: alternative 0 is a local asset with its 32-bit number; alternative 1 is an asset of a sibling chain with the chain's 16-bit number, an 8-bit pallet number and a 32-bit asset number; "
  "alternative 2 is an external asset with its network (0 Polkadot, 1 Kusama, 2 Ethereum with its 64-bit chain number) and optionally the same three parts as for a sibling chain. All numbers are little-endian and of fixed width, and alternatives may only be added with new numbers.",
  ["inputs"], "every identifier, every nested part",
  "No test encodes an identifier; a consistent change of both directions round-trips.",
  [AID], [("encoded form", AID + " FungibleAssetLocation, Para, NetworkId")])

# ---------------------------------------------------------------- payments
p("P01", "Only the right party can act on a payment",
  "Paying, releasing, asking for a refund and accepting a request act only on payments whose sender is the authenticated caller; "
  "cancelling and disputing act only on payments whose beneficiary is the authenticated caller, and a request for payment names the caller "
  "as beneficiary. Disputes are resolved only by the dispute resolver, and no call changes anything before its caller is authenticated.",
  ["inputs", "histories"], "every call, every origin, every stored payment",
  NOBUILD + "try a handful of wrong callers for some of the calls.",
  [PAY], [("origin checks", PAY + " every call"), ("party lookup", PAY + " PaymentParties"), ("storage key", PAY + " Payment")])
p("P02", "A payment only moves along its life cycle",
  "A payment can be released or have a refund requested only while open; cancelled only while open or while a refund is pending; disputed only "
  "while a refund is pending; resolved only while under review; and accepted only while it is an unanswered request. Each call leaves the payment "
  "in the state its name promises, and a finished or removed payment can never be acted on again.",
  ["histories", "inputs"], "every sequence of calls on any payment",
  NOBUILD + "walk a few fixed call sequences; illegal (state, call) pairs are mostly not tried.",
  [PAY, PAYT], [("state checks", PAY + " every call"), ("states", PAYT + " PaymentState")],
  state=[("Payment", "payment record with its state", PAY), ("PaymentParties", "sender and beneficiary by id", PAY)])
p("P03", "What a payment holds is exactly what its ending gives back",
  "While a payment is open, pending refund or under review, the chain holds for it exactly the amount on the beneficiary's side and the dispute "
  "incentive plus all the sender's fees on the sender's side (plus the same incentive on the beneficiary's side while under review). Every call that "
  "ends the payment releases exactly what is held at that point, so nothing stays locked and nothing is released twice.",
  ["histories", "inputs"], "every payment, fee list and sequence of calls",
  NOBUILD + "check balances after a few fixed scenarios with one fee list.",
  [PAY, PAYT], [("reserve", PAY + " reserve_payment_amount"), ("cancel", PAY + " cancel_payment"),
                ("settle", PAY + " settle_payment"), ("dispute hold", PAY + " dispute_refund"), ("fee totals", PAYT + " get_summary")])
p("P04", "A completed payment moves the amount once and each fee once",
  "Releasing a payment leaves the beneficiary with the full amount; accepting a request moves the full amount from sender to beneficiary. In both, every "
  "fee recorded on the payment is paid once, in full, to its recipient by the party it was assigned to, in the payment's asset, and nothing else moves.",
  ["inputs", "histories"], "every amount and every fee list, including several fees to one recipient",
  NOBUILD + "use fee lists where every recipient appears once.",
  [PAY, PAYT], [("settlement", PAY + " settle_payment, accept_and_pay, try_transfer_fees"), ("fee grouping", PAYT + " get_summary")])
p("P05", "A cancelled payment returns the full amount to the sender and charges no fee",
  "When a payment is cancelled or refunded, the whole amount goes back from the beneficiary's side to the sender, no fee or incentive is paid "
  "to anyone, and both the payment and its index entry are removed.",
  ["inputs", "histories"], "every payment that can be cancelled",
  NOBUILD + "cover one cancellation per state.",
  [PAY], [("refund", PAY + " cancel, cancel_payment")])
p("P06", "A resolved dispute splits the amount exactly and the loser pays the resolver",
  "When a dispute is resolved, the losing party pays the incentive to the resolver. If the sender wins, the sender receives the decided share of the amount "
  "and the beneficiary keeps the rest; if the beneficiary wins, the beneficiary keeps the decided share and the sender receives the rest. "
  "Only fees marked as mandatory are paid, each once and in full, and the others go back to whoever had them held.",
  ["inputs", "histories"], "every share, winner and fee list, including mandatory and optional fees to one recipient",
  NOBUILD + "resolve two disputes with fee lists where a recipient never has both kinds of fee.",
  [PAY, PAYT], [("dispute settlement", PAY + " settle_payment"), ("fee split", PAYT + " get_summary")])
p("P07", "A refund request is honoured at its deadline unless disputed before it",
  "Asking for a refund schedules, under a name derived from the payment, a cancellation with the beneficiary's authority at exactly the deadline that is recorded and "
  "announced, which lies the configured number of blocks ahead, with a priority that a full block cannot put off. A dispute is accepted only strictly before the deadline and removes that very scheduled cancellation.",
  ["histories", "schedules", "inputs"], "every block number, payment and interleaving of refund, dispute and scheduler",
  NOBUILD + "check one deadline and one dispute in time.",
  [PAY], [("scheduling", PAY + " request_refund"), ("deadline check and unscheduling", PAY + " dispute_refund")])
p("P08", "Payment records stay complete and are never overwritten while in use",
  "Creating a payment or a request records together, under an identifier generated for its two parties, the payment and the index entry naming them; the record carries the requested asset, amount, beneficiary "
  "and state, the incentive as the configured share of the amount and the fees set by the fee handler. An identifier already in use by other parties or by a payment "
  "in progress is refused, and until it is removed nothing but the state of a record changes.",
  ["histories", "inputs"], "every sequence of creations, including several in one transaction",
  NOBUILD + "never produce two payments with one identifier.",
  [PAY], [("creation", PAY + " create_payment"), ("removal", PAY + " cancel")])
p("P09", "No payment call succeeds when a step of it failed",
  "Every failure of an asset movement, of scheduling or of a lookup during a payment call makes the call fail, so all its effects are undone. "
  "A call that succeeds emits exactly one event, of the kind of that call and with the affected payment's identifier (and, for a refund request, the recorded deadline).",
  ["fault_sequences", "inputs"], "every failing step of every call",
  NOBUILD + "inject almost no failures.",
  [PAY], [("error propagation", PAY + " every call and helper"), ("events", PAY + " deposit_event")])
p("P10", "The sum of the fee totals is the sum of the fees",
  "For either party, the totals reported for a payment's fees add up to all the fees assigned to that party; outside a dispute all of it is to be charged, and in a dispute "
  "exactly the mandatory fees are to be charged and exactly the others returned. The per-recipient list carries the same money to the same recipients.",
  ["inputs"], "every fee list",
  NOBUILD + "only see it through balances of fixed scenarios.",
  [PAYT], [("summary", PAYT + " Fees::summary_for, get_summary")])
p("P11", "Opening a payment and fees never close an account; payouts may",
  "Locking the amount of a new payment and charging fees never take the payer's account below what keeps it open, and never take funds frozen for another purpose: the call fails instead. "
  "Returning the amount on cancellation, moving the amount of an accepted request and the payouts of a resolved dispute may use up the account they come from, so they never fail for that reason.",
  ["inputs", "histories"], "every payment and every balance of the parties",
  NOBUILD + "give all parties far more than the minimum balance.",
  [PAY], [("locking", PAY + " reserve_payment_amount"), ("fees", PAY + " try_transfer_fees"), ("payouts", PAY + " cancel_payment, settle_payment, accept_and_pay")])
p("P12", "A payment call that is due goes through unless one of its steps fails",
  "A party entitled to a call, naming a payment in a state the call is meant for (and, for a dispute, before the deadline), or creating one under an unused identifier, is refused only if moving, "
  "holding or releasing funds, scheduling or generating the identifier fails. No call panics.",
  ["inputs", "histories"], "every call, payment and caller entitled to it",
  NOBUILD + "make each call succeed once, with parties that are all different and one amount.",
  [PAY], [("calls", PAY + " every call"), ("helpers", PAY + " create_payment, reserve_payment_amount, cancel_payment, settle_payment")])

# ---------------------------------------------------------------- communities
p("M01", "Community administration acts only on the administrator's own community",
  "Changing the admin, the decision method, members, ranks, or dispatching as the community requires the corresponding admin or member-management authority, and "
  "affects only the community for which that authority was granted, whatever identifiers the caller passes.",
  ["inputs", "histories"], "every administrative call, origin and argument",
  NOBUILD + "always pass the administrator's own community.",
  [COM, COMF], [("origin checks", COM + " every administrative call"), ("sovereign account", COMF + " community_account")])
p("M02", "Only the origin of an existing, active community acts as that community",
  "An origin is recognised as a community only if it is that community's own origin or its registered admin and the community exists and is active; root and unsigned origins never are. "
  "A community seen as an account is always the account derived from its own identifier.",
  ["inputs", "histories"], "all origins and registry contents",
  NOBUILD + "never block a community between granting and using an origin kind.",
  [COMO], [("community origin", COMO + " EnsureCommunity"), ("as account", COMO + " AsSignedByCommunity, AsSignedByStaticCommunity"),
           ("membership origin", COMO + " EnsureMember")])
p("M03", "Community identifiers and administrators are registered at most once",
  "A community is registered only if its identifier is unused and its administrator does not already administer a community, and after any deposit due has been paid without closing the depositor's account; handing over the "
  "administration removes the previous administrator and never takes another community away from its own. The first state of a community is active and its account is kept alive.",
  ["histories", "inputs"], "every sequence of registrations and hand-overs",
  NOBUILD + "never hand administration to someone who already administers another community.",
  [COM, COMF], [("registration", COMF + " register"), ("hand-over", COM + " set_admin_origin")],
  state=[("CommunityIdFor", "admin origin to community", COM), ("Info", "existing communities", COM)])
p("M04", "Only a member casts a vote, only in their community's ongoing poll",
  "A vote is recorded only if the caller is signed and holds the membership used, the poll is ongoing and belongs to the membership's community, the kind of vote (and its asset) fits the "
  "community's decision method, and the vote is not below the minimum or of zero weight. Removing a vote likewise requires the caller to hold the membership and the poll to be ongoing.",
  ["inputs", "histories"], "every voter, membership, poll and vote",
  NOBUILD + "try single wrong combinations.",
  [COM, COMF], [("vote checks", COM + " vote, remove_vote"), ("poll checks", COMF + " try_vote, try_remove_vote")])
p("M05", "A tally is exactly the sum of the votes in force",
  "Each membership has at most one vote in force per poll: voting again first takes the earlier vote out of the tally. Casting adds the vote's weight (times the member's rank when the community "
  "decides by rank) to its side and, if in favour, its bare weight to the support; removing subtracts the same from the same places.",
  ["histories", "inputs"], "every sequence of votes, re-votes and removals whose totals stay within the weight type",
  NOBUILD + "check tallies after a few votes of one kind.",
  [COM, COMF], [("tally updates", COMF + " add_vote, remove_vote, try_vote, try_remove_vote"), ("re-vote", COM + " vote")],
  state=[("CommunityVotes", "votes in force", COM)])
p("M06", "Voted funds stay frozen while a vote counts and are freed only afterwards",
  "Casting a vote with funds records the lock and freezes at least that amount, never reducing an existing freeze; taking a vote away or unlocking drops that lock and leaves frozen exactly the largest amount among "
  "the voter's remaining locks of that same asset or of the native token. Unlocking is refused while the poll is ongoing and when there is no lock.",
  ["histories", "inputs"], "every voter and set of locks, both kinds of funds",
  NOBUILD + "hold at most two locks at a time.",
  [COM, COMF], [("locks", COMF + " update_locks"), ("unlock", COM + " unlock")],
  state=[("CommunityVoteLocks", "locked votes by voter and poll", COM)])
p("M07", "Approval and support are true fractions of the vote",
  "Approval is the ayes over all votes and support is the bare ayes over everything that could be cast under the community's decision method (members, sum of ranks, native or asset issuance); neither overflows or divides by zero, "
  "and an empty tally has no approval. A tally starts at zero and reports its own ayes.",
  ["inputs"], "every tally value and decision method",
  NOBUILD + "evaluate small tallies only.",
  [COMI, COMT], [("ratios", COMI + " VoteTally for Tally"), ("maximum", COMT + " max_support"), ("weight of a vote", COMT + " Vote::weight, say")])
p("M08", "Dispatching as a community uses that community's account and reports the outcome",
  "A call dispatched on behalf of a community runs signed by exactly that community's account and nothing more, and its failure is the failure of the dispatching call. "
  "Its declared weight covers the weight of the inner call.",
  ["inputs", "fault_sequences"], "every inner call and outcome",
  NOBUILD + "dispatch one successful call.",
  [COM, COMF], [("dispatch", COMF + " do_dispatch_as_community_account"), ("weight", COM + " dispatch_as_account")])
p("M09", "Memberships change hands and ranks move exactly as announced",
  "Adding a member hands one of the community's own free memberships to that account and fails when there is none; removing takes back the named membership and only if that account holds it; promoting or demoting moves the named "
  "membership's rank by one step. The event emitted names the account and membership affected, and the rank now in force.",
  ["inputs", "histories"], "every member, membership and rank",
  NOBUILD + "use accounts with a single membership and do not read the demotion event.",
  [COM], [("membership calls", COM + " add_member, remove_member, promote, demote")])
p("M10", "A community's voice crosses chains only as what it is",
  "A community origin becomes the plurality of that community's index with the part it speaks for (whole voice, a number of members, or a fraction), and a plurality becomes the community origin with that same index and part; "
  "parts that have no counterpart are refused in either direction.",
  ["inputs"], "every community origin and every plurality",
  NOBUILD + "do not cover the conversions.",
  [COMO], [("conversions", COMO + " TryFrom<RawOrigin> for Junction, TryFrom<Junction> for RawOrigin, TryConvert")])

p("M11", "A decision method is set as asked and its asset is created unprivileged",
  "Setting a community's decision method puts exactly the given method in force. If the method names an asset, that asset is created unless it exists, owned by the pallet's own account, with the minimum vote as its "
  "minimum balance and never as an asset that keeps accounts alive by itself; nothing else is created or changed.",
  ["inputs", "histories"], "every decision method",
  NOBUILD + "do not look at the privileges of the asset created.",
  [COM], [("decision method", COM + " set_decision_method")])
p("M12", "No community call succeeds when a step of it failed, and each is announced once",
  "Every failure of a deposit, a membership operation, a freeze, a poll access or a dispatch during a community call makes the call fail; only creating an asset that may exist already is optional. "
  "Creating a community, handing it over, setting its decision method, changing members and ranks, voting and removing a vote emit exactly one event, naming what was affected.",
  ["fault_sequences", "inputs"], "every failing step of every call",
  NOBUILD + "inject almost no failures and check only some events.",
  [COM, COMF], [("error propagation", COM + " every call"), ("events", COM + " deposit_event")])
p("M13", "A community call that is due goes through unless one of its steps fails",
  "A caller entitled to a community call is not refused: a new identifier with a new administrator can be registered, a member can vote in their community's ongoing poll with any vote that fits the decision method "
  "and reaches the minimum, whether or not they voted before, can take that vote back, and can unlock after the poll; administrators can hand over, set methods, and manage free memberships. No call panics.",
  ["inputs", "histories"], "every call and every caller entitled to it",
  NOBUILD + "make each call succeed with a few fixed votes.",
  [COM, COMF], [("calls", COM + " every call"), ("voting", COMF + " try_vote, try_remove_vote, update_locks")])

# ---------------------------------------------------------------- manager
p("G01", "Registering a community sets up all of it or nothing",
  "A successful registration charges the deposit its origin owes, creates the community under the requested identifier with the requested signed administrator and decision method, its unlimited membership collection owned and administered by the community's account, its "
  "governance track with the community's origin and the requested or default parameters, and inducts the community's account into the collective. If any step fails the registration fails.",
  ["fault_sequences", "inputs"], "every argument and failing step",
  NOBUILD + "register with valid arguments and look at parts of the result.",
  [MGR], [("registration", MGR + " register, default_tack")])
p("G02", "Creating memberships mints exactly what it announces, within the limit",
  "Only the membership-creating authority can mint, at most 1024 at a time; each minted membership is a new consecutive identifier starting at the requested one, in the manager's collection, owned by the manager, on the collection owner's deposit, and offered at the requested price. "
  "The announced count is the number minted, and any failure undoes all.",
  ["inputs", "fault_sequences"], "every amount, starting identifier and price, including the end of the identifier range",
  NOBUILD + "mint a few from zero.",
  [MGR], [("minting", MGR + " create_memberships")])
p("G03", "A community without requested track parameters gets the default track",
  "Registered without track parameters, a community decides one referendum at a time, without deposit, with one block to prepare, confirm and enact and 255 blocks to decide; the approval required falls "
  "linearly from all to half and the support required from half to nothing. A registration with a valid name is refused only if one of its steps fails.",
  ["inputs"], "every registration that names no track parameters",
  NOBUILD + "never look at the parameters of the track created.",
  [MGR], [("default track", MGR + " default_tack"), ("registration", MGR + " register")])

# ---------------------------------------------------------------- runtime
p("R01", "Pallets and calls keep their published indices",
  "Every pallet of the runtime and every call of this repository's pallets keeps the index it has been published with, and no two share one, so that stored, signed and scheduled calls keep their meaning.",
  ["configurations", "histories"], "the whole pallet table and call tables",
  "Indices are attributes; no test compares them with what is deployed.",
  [RT, PAY, COM, MGR], [("pallet table", RT + " mod runtime"), ("call indices", "call_index attributes of the three pallets")])
p("R02", "Privileged settings answer only to root or to the named authority",
  "Forced asset and collection management, treasury, scheduler, preimage, queue and bridge-message administration, track administration, ranks of the collective and killing or cancelling referenda answer only to root (or, where documented, to the matching "
  "governance origin or relay staking authority); nobody can create assets, spend from the treasury, add collective members or create communities directly.",
  ["configurations", "inputs"], "every origin setting of the runtime",
  "No runtime test dispatches any of these calls.",
  [RT, RTM, RTS, RTC, RTCG, RTCM, RTK, RTKG, RTX], [("origin settings", "impl …::Config for Runtime blocks")])
p("R03", "A restricted proxy can do only what its kind allows",
  "A proxy that excludes transfers cannot touch native balances or assets; the asset, asset-owner, asset-manager, collator and cancel proxies can make the calls of their own area, batching and multisig wrappers, and no others. "
  "One kind is treated as including another only if it permits every call the other permits; every kind includes itself, the unrestricted kind includes all, the asset kind those of asset owners and managers, and the kind without transfers that of collators.",
  ["inputs", "configurations"], "every proxy kind, pair of kinds and call",
  "No test exercises the filters.",
  [RTI], [("filter", RTI + " InstanceFilter::filter"), ("ordering", RTI + " is_superset")])
p("R04", "Each governance origin decides on its own track",
  "Root and each custom governance origin map to the one track made for them, that track exists in the track table, and no other origin has a track; each custom authority admits only its own origin. "
  "A community's origin may only change its own track, and exactly the members of a community (and root) may submit proposals to its track.",
  ["inputs", "configurations"], "every origin and track",
  "No test covers the mapping.",
  [RTKT, RTO, RTCG], [("track table", RTKT + " tracks, track_for"), ("custom origins", RTO), ("community tracks", RTCG + " EnsureOriginToTrack, EnsureCommunityMember")])
p("R05", "Scheduled work is only touched by its owner or root",
  "When two origins are compared for privilege, equal origins are equal and root is greater than any other; every other pair is unrelated.",
  ["inputs"], "every pair of origins",
  "No test covers the comparison.",
  [RTI], [("comparison", RTI + " EqualOrGreatestRootCmp")])
p("R06", "Only accounts derived for communities count as communities",
  "In the runtime an account is taken for a community only if it is the account that the communities pallet derives for that community's identifier; an address given as a community number is that community's account and a plain address is itself, and any other form "
  "of address is refused. Locations and signed origins are mapped to community accounts and back by the same rule.",
  ["inputs"], "every account, address and location",
  "No test builds the account of another pallet that looks like a community's.",
  [RTC, RTS, RTXC, RTP], [("account to community", RTC + " AccountToCommunityId"), ("address lookup", RTS + " CommunityLookup"),
                          ("location to account", RTXC + " PluralityConvertsToCommunityAccountId, SignedByCommunityToPlurality")])
p("R07", "Assets are accepted from other chains only from their reserve",
  "Incoming reserve transfers are honoured only when they come from the chain that is the reserve: an asset's own chain, or the asset hub for assets under its own location and for assets of the other relay network. Teleports are neither sent nor received.",
  ["inputs"], "every asset and origin location",
  "No test covers cross-chain trust.",
  [RTX], [("reserves", RTX + " Reserves, ReserveAssetsFrom, ReserveForeignAssetsFrom, matches_prefix"), ("teleport", RTX + " IsTeleporter, XcmTeleportFilter")])
p("R08", "Cross-chain messages execute, and are sent, only by who may",
  "Incoming messages execute only if they pay for execution or come from the relay chain or its executive body; local users cannot execute arbitrary messages, and only communities can send messages. "
  "A relay account acts here only as its own account, and only when its network is unspecified or the relay network; no location may act as another.",
  ["inputs", "configurations"], "every message origin",
  "No test covers the barrier or the origin conversions.",
  [RTX, RTXC], [("barrier", RTX + " Barrier, ParentOrParentsExecutivePlurality"), ("sending", RTX + " CanSendXcmMessages"), ("relay accounts", RTXC + " AccountId32FromRelay")])
p("R09", "Marketplace fees follow the published schedule and communities pay none",
  "A payment's sender is charged one percent and its beneficiary three percent of the amount (rounded down), never less than the asset's minimum balance, as mandatory fees to the treasury; a community on either side is charged nothing on that side. "
  "The dispute incentive is ten percent and the refund window is two days.",
  ["inputs", "configurations"], "every asset, amount and pair of parties",
  "No test evaluates the runtime's fee handler.",
  [RTP], [("fee handler", RTP + " KreivoFeeHandler"), ("payment settings", RTP + " pallet_payments::Config")])
p("R10", "Payment identifiers come from the current block, extrinsic and beneficiary",
  "A new payment's identifier is made from the current block number, the index of the extrinsic being executed and the beneficiary's account, and none is issued outside of an extrinsic.",
  ["inputs", "histories"], "every block, extrinsic and beneficiary",
  "No test issues identifiers through the runtime.",
  [RTP], [("identifier source", RTP + " PaymentId::next")])
p("R11", "Contracts can do nothing on chain but plain transfers, and few can add them",
  "A smart contract can only dispatch plain native transfers. Code is uploaded only by root, and contracts are instantiated by root and the two designated communities, and nobody else.",
  ["inputs", "configurations"], "every runtime call and origin",
  "No test covers the filter.",
  [RTCT], [("call filter", RTCT + " AllowBalancesCall"), ("origins", RTCT + " pallet_contracts::Config")])
p("R12", "Passkey challenges are hashes of recent, already existing blocks",
  "A passkey challenge is accepted exactly if it equals the hash of the referenced block and that block is an existing past block among the last three. Only real authenticators are enabled outside benchmarking.",
  ["inputs", "schedules"], "every referenced block number and challenge",
  "No test covers the challenger.",
  [RTS], [("challenge", RTS + " UnincludedBlockHashChallenger"), ("authenticators", RTS + " composite_authenticator")])
p("R13", "Registering costs the deposit and fees go where they are due",
  "Registering a community is free only for root and otherwise costs the caller half a unit paid to the treasury; memberships are created only by root or the membership-creating governance origin. "
  "Native transaction fees go to the treasury, asset fees to the block author, and cross-chain fees to the treasury.",
  ["configurations", "inputs"], "every origin and fee path",
  "No runtime test covers the origins or fee destinations.",
  [RTC, RTM, RTX, RCOM, COMO], [("registration origins", RTC), ("fee destinations", RTM + ", " + RTX + ", " + RCOM)])
p("R14", "Every signed transaction passes every validity check",
  "A transaction is accepted only after checks of sender, runtime and transaction version, genesis, lifetime, nonce, weight and payment, in that order; only the nonce and the payment checks are skipped, and only for calls declared free of fees.",
  ["configurations", "inputs"], "every signed transaction",
  "No test builds a signed transaction.",
  [RT], [("signed extensions", RT + " SignedExtra, ChargeTransaction")])
p("R15", "Execution is charged for the scarcer of time and proof size",
  "The fee for a weight is the larger of its time fee and its proof-size fee, each rising linearly from zero (a hundredth of a cent for the time of an empty extrinsic, a cent for ten thousand bytes of proof). Each cross-chain instruction is charged by its own benchmark (withdrawals, transfers, reserve withdrawals, teleports, burns and asset expectations once per asset; deposits and received reserves a fixed amount at most), and unsupported instructions cost the maximum. "
  "Each call of this repository's pallets declares the weight benchmarked for that same call.",
  ["inputs", "configurations"], "every weight, instruction and call",
  "Tests check two points of one fee curve and no instruction.",
  [RTF, RTW, PAY, COM, MGR], [("weight to fee", RTF + " WeightToFee"), ("instruction weights", RTW + " KreivoXcmWeight"), ("call weights", "weight attributes of the three pallets")])
p("R16", "Generated chain specifications agree with the runtime they carry",
  "For each network, the token decimals and symbol, the address format, the parachain number and the relay chain named in the generated specification agree with the runtime's currency unit and address prefix and with each other across local, live and test-network specifications, and each chain name yields its own specification.",
  ["configurations"], "both networks, all chain names",
  "The generator has no tests and needs unavailable dependencies.",
  [SPEC, SPECL, SPECJ, RCONST], [("specifications", SPECL), ("currency unit", RCONST)])

p("R17", "Registering a passkey account costs the least balance, and sessions are short",
  "Root and communities register passkey accounts for free; a signed account pays the existential deposit to the treasury; no other origin can register them. A session of a passkey account lasts at most fifteen minutes.",
  ["configurations", "inputs"], "every origin, on both networks",
  "No test registers a passkey account through the runtime.",
  [RTS], [("registration and sessions", RTS + " pallet_pass::Config")])
p("R18", "The collective decides on the published terms",
  "Each track of the collective decides one referendum at a time with fifteen minutes to prepare and confirm, four days to decide and one block to enact; the deposit is ten units on the root track and one on the others, the approval required falls linearly from all to nine tenths (half for "
  "membership creation) and the support required from all to nothing (half for membership creation). Members vote from rank one on, weighing linearly with rank; any signed account may propose against a deposit of one unit, undecided proposals time out after two days. "
  "Deposits lost in referenda of the collective or of communities go to the treasury.",
  ["configurations", "inputs"], "every track of the collective, on both networks",
  "No test reads the track table.",
  [RTKT, RTKG, RTK, RTCG], [("track terms", RTKT + " tracks"), ("voting", RTK), ("proposing and lost deposits", RTKG + ", " + RTCG)])
p("R19", "The interfaces offered to nodes answer from the runtime in force",
  "Each interface function answers what the responsible part of the runtime answers for the same arguments, and the version and slot duration told to nodes are those in force. Transactions whose call the base filter refuses are rejected before entering the pool, all others are "
  "judged by the executive. The balances query lists the native balance and each asset exactly if it is positive.",
  ["inputs"], "every interface function and argument",
  "No test calls the interfaces.",
  [RTA, RT], [("interfaces", RTA), ("version", RT + " VERSION")])
p("R20", "Deposits follow the price of storage",
  "Deposits for storage are twenty cents per item and a thousandth of a cent per byte of what is stored, for multisigs, proxies, announcements, preimages, assets, collections and contracts; the least balance and the deposit of an approval are a tenth of a cent, an asset takes a tenth of a unit, and memberships and proposals of communities are free. "
  "A cent is a hundredth of a unit on the test network and a hundredth of a thirtieth of a unit on the main network; each byte of a transaction costs a hundredth of a cent.",
  ["configurations"], "every deposit setting, on both networks",
  "No test evaluates a deposit.",
  [RTM, RTS, RTCT, RCONST], [("deposits", RTM + ", " + RTS + ", " + RTCT), ("currency", RCONST + ", " + RTF)])
p("R21", "Blocks, slots and sessions keep one rhythm",
  "Blocks are authored every six seconds: minutes, hours and days are counted in such blocks, and the consensus with the relay chain expects one block per six-second slot with at most three not yet included (a second block in a slot is accepted). Sessions end and are announced every six hours, collators that author nothing for a session are dropped, "
  "and authorship, sessions and the selection of collators refer to each other.",
  ["configurations"], "every timing setting",
  "No test compares the settings.",
  [RT, RTF, RTS], [("sessions and collators", RT), ("consensus hook", RT + " ConsensusHook")])
p("R22", "Room in a block is divided as published",
  "A block may take two seconds and the whole proof limit of the relay chain; normal transactions may fill three quarters of that (and of five mebibytes), the last quarter is reserved for operational ones and mandatory extrinsics are not limited. "
  "A quarter each is kept for messages of the relay chain and of other chains, queued messages may take 35 percent and scheduled calls 80 percent.",
  ["configurations"], "every class of extrinsic and reserve",
  "No test fills a block.",
  [RTS, RT], [("limits", RTS + " RuntimeBlockWeights"), ("reserves", RTS)])
p("R23", "Local networks start in a consistent state",
  "In the genesis of a local network every initial collator is endowed, cannot be voted out and has session keys of its own seed registered for its own account; no account is endowed twice or below the existential deposit. The bond of a candidate is sixteen existential deposits, "
  "only pallets of the runtime are configured, and a version for safe cross-chain messages is named.",
  ["configurations"], "both networks, every endowed account and collator",
  "The generator has no tests and needs unavailable dependencies.",
  [SPECL, SPEC], [("genesis", SPECL + " local_genesis")])

p("R24", "Published forms on chain stay as they are",
  "Pallets keep their names and account identifiers. The storage of payments, communities and registration keeps its entry names, hashers, keys and values, and the calls keep the order, types and compactness of their arguments; reasons for holds and freezes, "
  "origins, kinds of proxies, tallies, addresses and the configured identifiers and amounts keep their encoding (renamed parts and alternatives added with new numbers are fine). "
  "The runtime keeps its published name and state version, and its specification and transaction versions never go back.",
  ["configurations"], "every storage entry, call argument, encoded type, pallet name, pallet account and version",
  "A consistent change of writer and reader passes every test, and fails only on the state of a running chain or for clients.",
  [RT, PAY, COM, MGR], [("storage and calls", PAY), ("storage and calls", COM), ("storage and calls", MGR), ("pallet names", RT + " mod runtime"), ("pallet accounts", RT)])

p("R25", "Room for what is stored is never taken away",
  "Limits on what is kept in storage or carried in calls (locks, reserves, freezes, vesting schedules, names and remarks, fees and discounts of a payment, queued referenda, tracks, candidates, proxies, signatories, approvals, scheduled calls, queued messages, contract code) are at least what has been published; they may grow.",
  ["configurations"], "every limit",
  "Shrinking a limit passes every test and only makes existing state unreadable.",
  [RT, RTM, RTS, RTCT, RTP, RTCM], [("limits", RT), ("limits of currencies", RTM), ("limits of payments", RTP), ("limits of contracts", RTCT), ("limits of memberships", RTCM)])
p("R26", "The treasury keeps and pays what it holds, and vested funds stay locked",
  "The treasury spends every six days from its own account in the native currency, pays within thirty days, burns nothing and has no other spending. Funds not yet vested can be neither transferred nor reserved, vesting counts blocks of the chain and vested transfers are at least a thousand existential deposits. "
  "All deposits and funds are kept in the one native currency and assets in the one asset ledger, whose freezes are respected.",
  ["configurations"], "every setting of treasury and vesting and every currency, on both networks",
  "No test evaluates the settings.",
  [RT, RTM], [("treasury", RT + " pallet_treasury::Config"), ("vesting", RTM + " pallet_vesting::Config")])
p("R27", "Assets in messages are booked in the right ledger for the right owner",
  "In cross-chain messages the token of the relay chain is the native currency and every other asset is kept in the asset ledger under its location, each booked once, for the account the location stands for everywhere else. The relay chain, sibling chains and accounts of the network have accounts of their own. "
  "What a failing instruction did is undone; assets left over, responses and version queries are handled by the message pallet.",
  ["configurations"], "every part that moves assets of messages and every kind of location",
  "No test executes a cross-chain message.",
  [RTX], [("asset transactors", RTX + " AssetTransactors"), ("accounts of locations", RTX + " LocationToAccountId"), ("executor", RTX + " XcmConfig")])
p("R28", "Messages, upgrades and blocks go through the responsible parts",
  "Outgoing messages reach the relay chain and siblings, incoming ones are queued by origin and executed by the one configured executor, with all calls available to them. New code is enacted through the relay chain, relay block numbers never go back, and all pallets take part in every block.",
  ["configurations"], "every route, queue and handler",
  "No test sends or receives a message or executes a block.",
  [RT, RTS, RTX], [("queues", RT), ("parachain system", RTS), ("executor and routers", RTX), ("executive", RT + " Executive")])
p("R29", "What is open to everyone stays open",
  "Every signed account can make and request payments as itself, and a community pays from its own account; no other origin acts in payments. Whoever pays for it may have a message executed and send assets to other chains, and no call is stopped by the base filter.",
  ["configurations", "inputs"], "every class of origin and every filter",
  "No test builds the runtime with its filters.",
  [RTP, RTX, RTS], [("payment origins", RTP), ("filters", RTX)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
