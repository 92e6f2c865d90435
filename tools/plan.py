#!/usr/bin/env python3
"""Writes plan.json (what each check runs and assumes). Run by hand, then tools/manifest.py."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(i, crate, level, functions, harnesses, trusted=(), assumptions=(), known=()):
    hs = []
    for h in harnesses:
        h = {'name': h} if isinstance(h, str) else dict(h)
        hs.append(h)
    e = {'crate': 'proofs-' + crate, 'level': level, 'harnesses': hs, 'functions': list(functions)}
    if trusted:
        e['trusted'] = list(trusted)
    if assumptions:
        e['assumptions'] = list(assumptions)
    if known:
        e['known'] = list(known)
    P[i] = e


def bounded(text, *names, **kw):
    return [dict(name=n, bounded=text, **kw) for n in names]


def thorough(*hs):
    return [dict(h, tier='thorough') if isinstance(h, dict) else {'name': h, 'tier': 'thorough'} for h in hs]


def mem(*names):
    return [{'name': n, 'memory_safety': True} for n in names]


def family(crate, module, prefix, but=()):
    """Every harness of a module whose name starts with the prefix."""
    with open(os.path.join(V, 'kani/proofs', crate, 'src', (module or 'lib') + '.rs')) as f:
        names = re.findall(r'^\t(%s_\w+) =>' % prefix, f.read(), re.M)
    return [(module + '::' if module else '') + n for n in names if n not in but]


# --- payment ids ---------------------------------------------------------------------------------------------------
BS58 = ['contract of bs58 0.5.1 encode/decode: a bijection between byte strings and base58 texts; eight bytes give 8 to 11 characters']
MEMCHR = ['core::slice::memchr::memchr replaced by its contract (first position)']
prop('I01', 'common', 'proof',
     ['PaymentId: From<u64>, Into<u64>, from_number, to_number, block_number, extrinsic_index, AsRef<[u8]>, PartialEq'],
     mem('i01_number'))
prop('I02', 'common', 'proof',
     ['PaymentId: From<(u32,u32,&[u8])>, block_number, extrinsic_index, AsRef<[u8]>'], mem('i02_parts'))
prop('I03', 'common', 'proof', ['PaymentId: Display, FromStr'],
     ['i03_%s_%s' % (k, n) for n in ('08', '09', '10', '11') for k in ('plain', 'pretty')], BS58, MEMCHR)
T = ('texts of at most 14 bytes with one- and two-byte characters, each checked length complete '
     '(quick: 7, 8, 12, 13; thorough also 0, 1, 10, 11, 14)')
prop('I04', 'common', 'other', ['PaymentId: FromStr, Display'],
     [dict(name='i04_len_' + n, bounded=T, **({} if n in ('07', '08', '12', '13') else {'tier': 'thorough'}))
      for n in ('00', '01', '07', '08', '10', '11', '12', '13', '14')], BS58, MEMCHR)

CODEC = ['parity-scale-codec 3.6.12 and its derive are compiled and verified along with the code']
XCM = 'assumed contract of the xcm types: plain data, a location is a number of parents and at most five junctions read as a slice'
I = lambda c, but=(): family('ids', '', c, but)
prop('I05', 'ids', 'proof', ['PaymentId: Encode, Decode, MaxEncodedLen (feature runtime)'], I('i05'), [], CODEC)
prop('I06', 'ids', 'proof', ['AsFungibleAssetLocation: convert, convert_back; NetworkId conversions; FungibleAssetLocation: From<u32>'],
     I('i06'), [XCM], CODEC + ['locations deeper than five junctions are not represented; junctions that no asset id can carry stand one per kind'])

# --- payments ------------------------------------------------------------------------------------------------------
LEDGER = 'assumed contract of the assets ledger (hold, release, transfer_on_hold, transfer): an operation either fails or moves exactly the amount asked for; balances fit the balance type'
STORE = 'assumed contract of FRAME storage maps: a map; a failing call is rolled back'
FEES2 = 'two fees on one side in one of the six orders of receivers (equal, before, after) and dispute flags'
PAY_T = [LEDGER, STORE]
PAY_A = ['the account ledger is followed for one arbitrary account, so ledger clauses hold for every account',
         'payer account and payment id are fixed representatives: the pallet only compares and orders accounts and ids',
         'percentages are an uninterpreted function shared by code and contract (exact when replayed natively)',
         'contracts discharged for fee lists of at most one fee per side, which is all the deployed fee handler returns (R01); longer lists only bounded',
         'sums promised by one payment fit the balance type']
CODES = ['20', '21', '22', '23', '24', '25']
prop('P01', 'payments', 'proof', ['Pallet::pay, create_payment, reserve_payment_amount, Fees'],
     ['p01_pay_00', 'p01_pay_11'] + bounded(FEES2, *['p01_pay_b' + c for c in CODES]), PAY_T, PAY_A)
prop('P02', 'payments', 'proof', ['Pallet::release, settle_payment, try_transfer, PaymentDetail::get_summary'],
     ['p02_release_00', 'p02_release_11'] + bounded(FEES2, 'p02_release_s21', 'p02_release_b24')
     + thorough(*bounded(FEES2, *['p02_release_s' + c for c in CODES if c != '21'], *['p02_release_b' + c for c in CODES if c != '24'])),
     PAY_T, PAY_A)
prop('P03', 'payments', 'proof', ['Pallet::cancel, cancel_payment'],
     ['p03_cancel_created_11', 'p03_cancel_refund_11'] + bounded(FEES2, *['p03_cancel_s' + c for c in CODES]), PAY_T, PAY_A)
prop('P04', 'payments', 'proof', ['Pallet::release, request_refund, accept_and_pay, cancel, dispute_refund, resolve_dispute'],
     ['p04_' + k for k in ('release', 'refund', 'accept', 'cancel', 'cancel_refund', 'dispute', 'resolve')], PAY_T, PAY_A)
prop('P05', 'payments', 'proof', ['Pallet::pay, request_payment, release, request_refund, accept_and_pay, cancel, dispute_refund, resolve_dispute'],
     ['p05_' + k for k in ('release', 'refund', 'accept', 'cancel', 'dispute', 'resolve', 'create_created', 'create_review',
                           'create_refund', 'create_finished')], PAY_T, PAY_A)
SCHED = 'assumed contract of the scheduler and preimages: a named task is kept or refused, cancelled by its name'
prop('P06', 'payments', 'proof', ['Pallet::request_refund, scheduled task name'],
     ['p06_refund', 'p06_names'], PAY_T + [SCHED], PAY_A)
prop('P07', 'payments', 'proof', ['Pallet::dispute_refund, request_refund'],
     ['p07_' + k for k in ('dispute', 'created', 'review', 'requested', 'finished', 'same_task')], PAY_T + [SCHED], PAY_A)
prop('P08', 'payments', 'proof', ['Pallet::resolve_dispute, settle_payment, PaymentDetail::get_summary'],
     ['p08_beneficiary_11', 'p08_sender_11'] + bounded(FEES2, 'p08_sender_s21')
     + thorough(*bounded(FEES2, *['p08_sender_s' + c for c in CODES if c != '21'], *['p08_beneficiary_b' + c for c in CODES])),
     PAY_T, PAY_A)
prop('P09', 'payments', 'proof', ['Pallet::request_payment, accept_and_pay, settle_payment'],
     ['p09_accept_11', 'p09_request_11'] + ['p09_pending_' + k for k in ('created', 'review', 'refund', 'finished')]
     + bounded(FEES2, 'p09_accept_s21') + thorough(*bounded(FEES2, *['p09_accept_s' + c for c in CODES if c != '21'])), PAY_T, PAY_A)
prop('P10', 'payments', 'proof', ['every payments call: amounts conserved, only this payment\'s escrow used'],
     ['p10_' + k for k in ('pay', 'request', 'release', 'refund', 'accept', 'cancel_created', 'cancel_refund', 'dispute',
                           'resolve')], PAY_T, PAY_A)
prop('P11', 'payments', 'proof', ['every payments call: storage of payments and parties'],
     ['p11_' + k for k in ('pay', 'request', 'pay_clash', 'request_clash', 'release', 'refund', 'accept', 'cancel', 'dispute',
                           'resolve')], PAY_T, PAY_A)
prop('P12', 'payments', 'proof', ['Pallet::request_refund, cancel, release: can always be carried out'],
     ['p12_refund_11', 'p12_cancel_11', 'p12_release_00', 'p12_release_11', 'p12_resolve_sender_00', 'p12_resolve_beneficiary_00'], PAY_T, PAY_A)

# --- communities ---------------------------------------------------------------------------------------------------
MEMBERS = 'assumed contract of the memberships backend: answers membership, rank and totals; a change either fails or takes effect'
POLLS = 'assumed contract of the referenda pallet: answers a poll\'s class and state and hands its tally to the caller\'s function'
FREEZES = 'assumed contract of the freezing ledgers: set, extend and thaw of one frozen amount per (asset, account), or refusal'
COM_A = ['accounts and ids are compared, ordered and hashed only, so ledger and storage clauses are proved for arbitrary ones of them',
         'a failing call is rolled back by FRAME, so nothing it wrote before failing counts']
C = lambda c, but=(): family('communities', '', c, but)
W = lambda c, but=(): family('communities', 'votes', c, but)
prop('C01', 'communities', 'proof', ['Pallet::create, register'], C('c01'), [STORE], COM_A)
prop('C02', 'communities', 'proof', ['Pallet::set_admin_origin, EnsureCommunity'], C('c02'), [STORE], COM_A)
prop('C03', 'communities', 'proof', ['Pallet::set_decision_method'], C('c03'), [STORE], COM_A)
prop('C04', 'communities', 'proof', ['Pallet::add_member, remove_member'], C('c04'), [STORE, MEMBERS], COM_A)
prop('C05', 'communities', 'proof', ['Pallet::promote, demote'], C('c05'), [STORE, MEMBERS], COM_A)
prop('C06', 'communities', 'proof', ['Pallet::vote, try_vote'], W('c06'), [STORE, MEMBERS, POLLS, FREEZES], COM_A)
prop('C07', 'communities', 'proof', ['Pallet::vote, try_vote, try_remove_vote, Tally::add_vote, remove_vote, VoteWeight'],
     W('c07'), [STORE, MEMBERS, POLLS, FREEZES], COM_A)
prop('C08', 'communities', 'proof', ['Pallet::remove_vote, try_remove_vote, Tally::remove_vote'],
     W('c08'), [STORE, MEMBERS, POLLS, FREEZES], COM_A,
     [{'harness': 'votes::c08_after_rank_change', 'obligation': 'removal after a rank change restores the tally',
       'text': 'a member whose rank changed between voting and removing the vote takes a different weight out of the tally than was put in (rank decision method)'}])
SCALE = ['products of percentages are an uninterpreted function shared by code and contract (exact when replayed natively)']
prop('C09', 'communities', 'proof', ['Tally: approval, support, new, max_support'], W('c09'), [MEMBERS], COM_A + SCALE)
LOCKS = 'at most three other outstanding locks of the voter, in the listed combinations of token kinds; amounts, polls and frozen amounts arbitrary'
prop('C10', 'communities', 'other', ['Pallet::vote, remove_vote, unlock, update_locks'],
     bounded(LOCKS, *W('c10')), [STORE, MEMBERS, POLLS, FREEZES], COM_A,
     [{'harness': 'votes::c10_two_members', 'obligation': 'the other membership\'s vote stays frozen',
       'text': 'two memberships of one account voting on the same poll share one lock: removing one vote releases the tokens behind the other'}])
prop('C11', 'communities', 'proof', ['Pallet::unlock'], W('c11'), [STORE, POLLS, FREEZES], COM_A)
prop('C12', 'communities', 'proof', ['EnsureCommunity::try_origin, force_state'], C('c12'), [STORE], COM_A)
prop('C13', 'communities', 'proof', ['Pallet::community_account, dispatch_as_account, do_dispatch_as_community_account, EnsureMember, AsSignedByCommunity, AsSignedByStaticCommunity'],
     C('c13'), [STORE, MEMBERS], COM_A)
prop('C14', 'communities', 'proof', ['RawOrigin -> Location and Junction -> RawOrigin conversions'], C('c14'),
     ['contract of the xcm types (Junction, Location, Plurality): data carriers'], COM_A)
M = lambda c, but=(): family('communities', 'manager', c, but)
prop('M01', 'communities', 'proof', ['manager Pallet::register, default_tack', 'Pallet::register, set_decision_method, community_account'],
     M('m01'), [STORE, 'assumed contract of collections, tracks and ranked collective: a request is carried out or refused',
                'core::str::from_utf8 replaced by its contract: one fixed answer per byte string'], COM_A)
MINT = 'at most 8 memberships (thorough 64) from any start, or any number from a start within the last 8 ids'
prop('M02', 'communities', 'other', ['manager Pallet::create_memberships'],
     ['manager::m02_too_many', 'manager::m02_not_by_root', 'manager::m02_not_by_signed', 'manager::m02_not_by_community']
     + bounded(MINT, 'manager::m02_few', 'manager::m02_last', 'manager::m02_refused') + thorough(*bounded(MINT, 'manager::m02_many')),
     [STORE, 'assumed contract of the items pallet: minting and pricing are carried out or refused'], COM_A)

# --- the runtime ---------------------------------------------------------------------------------------------------
CALLS = 'assumed of the dependency pallets: their calls are the listed ones (names and arguments the runtime mentions)'
ORIGINS = 'assumed contract of FRAME origins: a sum of root, none, signed and one origin per pallet; EitherOf, MapSuccess and EnsureRoot* as documented'
CONVERT = 'assumed contract of the xcm-builder converters (parent, sibling, 32-byte account, native asset)'
KEYS = 'assumed contract of sub-account derivation: "modl", the 8-byte pallet id, the encoded sub id, zero padding; reading it back accepts any pallet id'
RUN_A = ['the runtime crate is compiled from its own sources, mirrored file by file on every run; four generated or declarative files '
         '(runtime API list, two weight tables, xcm weights) are replaced and not under proof',
         'hashes, signatures and the wasm build are outside']
L = lambda c, but=(): family('runtime', '', c, but)
K = lambda c, but=(): family('runtime', 'calls', c, but)
X = lambda c, but=(): family('runtime', 'places', c, but)
PUSH = 'Vec::push replaced by its contract (appends) for short vectors'
prop('R01', 'runtime', 'proof', ['KreivoFeeHandler::apply_fees', 'TreasuryAccount'], L('r01'),
     [KEYS, PUSH, 'assumed contract of the assets ledger: a minimum balance per asset', 'assumed contract of Percent::mul_floor: one function of ratio and amount, exact when run natively'], RUN_A)
prop('R02', 'runtime', 'proof', ['PaymentId::next', 'PaymentId: From<(u32,u32,&[u8])>'], L('r02'),
     ['assumed contract of frame-system: current block and extrinsic index'],
     RUN_A + ['extrinsic indices below 65536: a block has no room for more'])
prop('R03', 'runtime', 'proof', ['ProxyType: InstanceFilter::filter, is_superset'], K('r03') + ['calls::pallet_list'], [CALLS], RUN_A)
prop('R04', 'runtime', 'proof', ['EqualOrGreatestRootCmp::cmp_privilege'], L('r04'), [ORIGINS], RUN_A)
prop('R05', 'runtime', 'proof', ['BlockHashChallenger::check_challenge, generate'], L('r05'),
     ['assumed contract of frame-system: block_hash of a block, zero where it is not known'], RUN_A)
prop('R06', 'runtime', 'proof', ['CommunityLookup: lookup, unlookup', 'RegisterOrigin of pallet-pass'], L('r06'), [ORIGINS, KEYS], RUN_A)
prop('R07', 'runtime', 'proof', ['EnsureCommunityAccount / AsCommunity account checks', 'SignedByCommunityToPlurality', 'CanSendXcmMessages'],
     X('r07'), [ORIGINS, KEYS], RUN_A)
prop('R08', 'runtime', 'proof', ['Reserves', 'ReserveAssetsFrom', 'ReserveForeignAssetsFrom', 'XcmConfig::IsReserve'], X('r08'),
     [XCM, CONVERT], RUN_A + ['depths of asset and sender in the listed combinations up to five junctions; beyond the first, junctions of three kinds'])
prop('R09', 'runtime', 'proof', ['LocationToAccountId', 'PluralityConvertsToCommunityAccountId'], X('r09'), [XCM, CONVERT, KEYS],
     RUN_A + ['locations of up to three junctions; beyond the first, junctions of three kinds'])
prop('R10', 'runtime', 'proof', ['ParentOrParentsExecutivePlurality'], X('r10'), [XCM],
     RUN_A + ['locations of up to three junctions; beyond the first, junctions of three kinds'])
prop('R11', 'runtime', 'proof', ['TracksInfo::track_for, tracks', 'custom origin checks'], L('r11'), [ORIGINS], RUN_A)
prop('R12', 'runtime', 'proof', ['contracts call filter', 'contracts InstantiateOrigin, UploadOrigin'], K('r12') + ['calls::pallet_list'], [CALLS, ORIGINS], RUN_A)
prop('R13', 'runtime', 'proof', ['EnsureCommunityMember-based SubmitOrigin', 'UpdateOrigin of the tracks'], L('r13'),
     [ORIGINS, MEMBERS, 'assumed contract of the tracks pallet: the track of an origin'], RUN_A)
prop('R14', 'runtime', 'proof', ['WeightToFee::weight_to_fee', 'RefTimeToFee, ProofSizeToFee', 'deposit (runtime and relay constants)'], L('r14'),
     ['assumed contract of the fee polynomial: sum of coefficients times the weight, saturating',
      'assumed contract of Perbill multiplication: nearest, keeps order, zero exactly below half a unit'], RUN_A)

if __name__ == '__main__':
    plan = {'assumptions': [
        'machine arithmetic is checked, not treated as mathematical: every overflow is a proof obligation',
        'the target is 64-bit little-endian Linux as in the verifier\'s build; the chain\'s wasm build shares the source',
    ], 'properties': P, 'not_applicable': {}}
    with open(os.path.join(V, 'plan.json'), 'w') as f:
        json.dump(plan, f, indent=1)
        f.write('\n')
