//! Makers lock funds in the swap contract, takers pay them in Bitcoin, anyone hands in proofs;
//! calls are lost, repeated and reordered on their way, the relay's headers arrive late or not at
//! all, and the node crashes inside blocks and executes them again. The contracts run in ink's
//! off-chain environment, called by selector and encoded arguments as a client calls them, with
//! the runtime's own chain extension over the real relay.
use bitcoin::{types::FullTransactionProof, Address};
use codec::{Decode, Encode};
use contract_runtime::{Runtime, Security, System};
use frame_support::{
    state,
    traits::{BuildGenesisConfig, Hooks},
};
use frame_system::RawOrigin;
use ink::{
    env::{test, DefaultEnvironment as Env},
    primitives::AccountId as InkAcc,
    reflect::{ContractConstructorDecoder, ContractMessageDecoder, DecodeDispatch, ExecuteDispatchable},
};
use primitive_types::{H160, H256};
use sim_btcnet::{op_return, script_of, Net, View};
use sim_core::*;
use std::{cell::RefCell, collections::BTreeMap};

type Acc = [u8; 32];
type Swapper = btc_swap::SimulatedContract;
type Flipper = hello_world::flipper::Flipper;

const SWAP: Acc = [0xc1; 32];
const FLIP: Acc = [0xc2; 32];

fn selector(name: &str) -> [u8; 4] {
    sp_core::hashing::blake2_256(name.as_bytes())[..4].try_into().unwrap()
}
fn user(i: usize) -> Acc {
    [i as u8 + 1; 32]
}

// ------------------------------------------------------------------ the contract environment

#[derive(Default)]
struct Extension {
    /// answers given so far in this call
    given: Vec<Result<(u32, Vec<u8>), ()>>,
    /// answers to repeat when a call is executed again for its state only
    replay: Option<Vec<Result<(u32, Vec<u8>), ()>>>,
    runtime_panic: Option<(String, String)>,
}
thread_local! {
    static EXT: RefCell<Extension> = RefCell::new(Extension::default());
}
struct Bridge(u32);
impl ink_engine::ChainExtension for Bridge {
    fn func_id(&self) -> u32 {
        self.0
    }
    fn call(&mut self, input: &[u8], output: &mut Vec<u8>) -> u32 {
        // the environment hands the bytes over with their length in front
        let input = <Vec<u8>>::decode(&mut &input[..]).unwrap_or_default();
        let replayed = EXT.with(|x| {
            let mut x = x.borrow_mut();
            x.replay.as_mut().map(|r| if r.is_empty() { Err(()) } else { r.remove(0) })
        });
        let r = match replayed {
            Some(r) => r,
            None => {
                let r = match catching(|| contract_runtime::extension(self.0, &input)) {
                    Ok(r) => r.map_err(|_| ()),
                    Err(p) => {
                        EXT.with(|x| x.borrow_mut().runtime_panic = Some(p));
                        Err(())
                    }
                };
                EXT.with(|x| x.borrow_mut().given.push(r.clone()));
                r
            }
        };
        match r {
            Ok((status, out)) => {
                output.clear();
                output.extend(out);
                status
            }
            // the pallet ends the contract's call
            Err(()) => panic!("extension failed"),
        }
    }
}

#[derive(Clone)]
struct Entry {
    contract: Acc,
    caller: Acc,
    value: u128,
    data: Vec<u8>,
    create: bool,
    answers: Vec<Result<(u32, Vec<u8>), ()>>,
}

/// The contracts' state as the history of calls that went through.
#[derive(Clone, Default)]
struct Contracts {
    journal: Vec<Entry>,
    start: Vec<(Acc, u128)>,
}

impl Contracts {
    fn raw(e: &Entry) -> Result<(), String> {
        test::set_callee::<Env>(InkAcc::from(e.contract));
        test::set_caller::<Env>(InkAcc::from(e.caller));
        test::transfer_in::<Env>(e.value);
        let data = &mut &e.data[..];
        let r = catching(|| -> Result<(), String> {
            let f = |x: ink::reflect::DispatchError| format!("{x:?}");
            match (e.contract == SWAP, e.create) {
                (true, true) => <Swapper as ContractConstructorDecoder>::Type::decode_dispatch(data).map_err(f)?.execute_dispatchable().map_err(f),
                (true, false) => <Swapper as ContractMessageDecoder>::Type::decode_dispatch(data).map_err(f)?.execute_dispatchable().map_err(f),
                (false, true) => <Flipper as ContractConstructorDecoder>::Type::decode_dispatch(data).map_err(f)?.execute_dispatchable().map_err(f),
                (false, false) => <Flipper as ContractMessageDecoder>::Type::decode_dispatch(data).map_err(f)?.execute_dispatchable().map_err(f),
            }
        });
        match r {
            Ok(r) => r,
            // a message ends by returning its value to the client, which the environment cannot do
            Err((_, m)) if m.contains("does not implement `return_value`") => Ok(()),
            Err((l, m)) => Err(format!("{m} at {l}")),
        }
    }
    fn rebuild(&self) {
        let _ = test::run_test::<Env, _>(|accounts| {
            for a in [accounts.alice, accounts.bob, accounts.charlie, accounts.django, accounts.eve, accounts.frank] {
                test::set_account_balance::<Env>(a, 0);
            }
            for (a, b) in &self.start {
                test::set_account_balance::<Env>(InkAcc::from(*a), *b);
            }
            test::register_chain_extension(Bridge(1101));
            for e in &self.journal {
                EXT.with(|x| x.borrow_mut().replay = Some(e.answers.clone()));
                let _ = Self::raw(e);
            }
            EXT.with(|x| x.borrow_mut().replay = None);
            Ok(())
        });
    }
    /// Executes a call; when it is refused nothing of it remains.
    fn call(&mut self, mut e: Entry) -> Result<(), String> {
        EXT.with(|x| *x.borrow_mut() = Extension::default());
        let r = Self::raw(&e);
        match &r {
            Ok(()) => {
                e.answers = EXT.with(|x| x.borrow().given.clone());
                self.journal.push(e);
            }
            Err(_) => self.rebuild(),
        }
        r
    }
    fn balance(&self, a: &Acc) -> u128 {
        test::get_account_balance::<Env>(InkAcc::from(*a)).unwrap_or(0)
    }
    fn flipped(&self) -> Option<bool> {
        test::set_callee::<Env>(InkAcc::from(FLIP));
        let k = <Flipper as ink::storage::traits::StorageKey>::KEY;
        ink::env::get_contract_storage::<_, Flipper>(&k).ok().flatten().map(|f| f.get())
    }
}

// ------------------------------------------------------------------ the world

#[derive(Clone, Debug)]
struct Pay {
    blk: usize,
    txi: usize,
    outs: Vec<(Option<Address>, i64)>,
}

#[derive(Clone, Debug)]
enum What {
    Create { btc: Address, min: u64 },
    /// execution with a proof of this payment, genuine or not
    Execute { maker: usize, pay: usize, forged: bool },
    Junk,
    Flip,
    Get,
    Header(usize),
}
#[derive(Clone)]
struct Tx {
    who: usize,
    value: u128,
    data: Vec<u8>,
    what: What,
}

#[derive(Clone, Default)]
struct Model {
    orders: BTreeMap<usize, (Address, u64, u128)>,
    balances: Vec<u128>,
    locked: u128,
    flip: Option<bool>,
    view: View,
    ready: bool,
    active: u32,
}

const USERS: usize = 6;

pub struct Swap {
    net: Net,
    tips: [usize; 2],
    split: bool,
    model: Model,
    contracts: Contracts,
    pool: Vec<Tx>,
    unsent: Vec<(Option<usize>, Vec<(Option<Address>, i64)>)>,
    pays: Vec<Pay>,
    addrs: Vec<Address>,
    number: u32,
    steps: usize,
    w: Vec<u32>,
    loss: u64,
    seen_value: i64,
}

fn address(src: &mut Src) -> Address {
    match src.below(4) {
        0 => Address::P2WPKHv0(H160(src.array())),
        1 => Address::P2PKH(H160(src.array())),
        2 => Address::P2SH(H160(src.array())),
        _ => Address::P2WSHv0(H256(src.array())),
    }
}

impl Swap {
    fn submit(&mut self, src: &mut Src, ctx: &mut Ctx, tx: Tx) {
        if src.chance(self.loss, 8) {
            ctx.fault("call lost on its way");
            return;
        }
        if src.chance(1, 5) {
            ctx.fault("call repeated on its way");
            self.pool.push(tx.clone());
        }
        self.pool.push(tx);
    }

    fn create(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let who = src.usize(USERS);
        let btc = if !self.addrs.is_empty() && src.chance(1, 4) { *src.pick(&self.addrs) } else { address(src) };
        self.addrs.push(btc);
        let min = match src.below(6) {
            0 => *src.pick(&[0u64, 1, u64::MAX, 21_000_000_0000_0000]),
            1 => self.seen_value as u64,
            _ => src.magnitude(21_000_000_0000_0000) as u64,
        };
        let value = match src.below(5) {
            0 => *src.pick(&[0u128, 1]),
            1 => self.model.balances[who],
            _ => src.magnitude(1 << 60),
        };
        let data = [&selector("create_trade")[..], &btc.encode(), &min.encode()].concat();
        ctx.note(|| format!("user {who} offers {value} for {min} sat to {btc:?}"));
        self.submit(src, ctx, Tx { who, value, data, what: What::Create { btc, min } });
    }

    /// A taker writes a payment for an order: right, short, to another address, split, ...
    fn pay(&mut self, src: &mut Src, ctx: &mut Ctx) {
        let orders: Vec<_> = self.model.orders.values().cloned().collect();
        let (to, min) = if !orders.is_empty() && src.chance(5, 6) {
            let o = src.pick(&orders);
            (o.0, o.1)
        } else if !self.addrs.is_empty() {
            (*src.pick(&self.addrs), src.magnitude(1 << 40) as u64)
        } else {
            return;
        };
        let near = (min as i128 + src.irange(-1, 1) as i128).clamp(0, 21_000_000_0000_0000) as i64;
        let v = if src.chance(1, 6) { src.magnitude(21_000_000_0000_0000) as i64 } else { near };
        self.seen_value = v;
        let mut outs = vec![(Some(to), v)];
        for _ in 0..src.below(3) {
            let o = match src.below(4) {
                0 => (None, 0),
                1 => (Some(to), src.magnitude(1 << 50) as i64),
                2 => (Some(address(src)), v),
                _ => (self.addrs.last().copied(), src.magnitude(1 << 50) as i64),
            };
            let at = src.usize(outs.len() + 1);
            outs.insert(at, o);
        }
        if src.chance(1, 8) {
            // split in two, each short
            outs[0].1 /= 2;
            outs.push((Some(to), v - v / 2));
        }
        ctx.note(|| format!("payment {outs:?}"));
        self.unsent.push((None, outs));
    }

    fn mine(&mut self, src: &mut Src, ctx: &mut Ctx) {
        if self.split && src.chance(1, 3) {
            // the partition heals: the longer side stays
            let (a, b) = (self.tips[0], self.tips[1]);
            let t = if self.net.blocks[b].height > self.net.blocks[a].height { b } else { a };
            self.tips = [t, t];
            self.split = false;
            ctx.fault("miners' partition healed");
        } else if !self.split && src.chance(1, 12) {
            self.split = true;
            ctx.fault("miners partitioned");
        }
        let side = if self.split { src.usize(2) } else { 0 };
        let mut txs = vec![];
        let mut made = vec![];
        let all = self.unsent.len();
        let n = if src.bool() { all } else { src.usize(all + 1) };
        for (_, outs) in self.unsent.drain(..n) {
            let o: Vec<(Vec<u8>, i64)> = outs.iter().map(|(a, v)| (a.map_or_else(|| op_return(&[5; 20]), |a| script_of(&a)), *v)).collect();
            txs.push(self.net.tx(&o));
            made.push(outs);
        }
        let blk = self.net.mine(self.tips[side], txs, 600);
        self.tips[side] = blk;
        if !self.split {
            self.tips = [blk, blk];
        }
        for (i, outs) in made.into_iter().enumerate() {
            self.pays.push(Pay { blk, txi: i + 1, outs });
        }
        ctx.sim_time += 600;
        ctx.note(|| format!("block #{blk} height {} mined", self.net.blocks[blk].height));
        if src.chance(7, 8) {
            self.relay(src, ctx, blk);
        }
    }

    fn relay(&mut self, src: &mut Src, ctx: &mut Ctx, blk: usize) {
        self.submit(src, ctx, Tx { who: 0, value: 0, data: vec![], what: What::Header(blk) });
    }

    /// A proof of a payment, genuine or forged; also says whether it is forged.
    fn proof(&mut self, src: &mut Src, ctx: &mut Ctx, p: &mut usize) -> Option<(FullTransactionProof, bool)> {
        let pay = self.pays[*p].clone();
        let mut proof = self.net.proof(pay.blk, pay.txi)?;
        if !src.chance(1, 4) {
            return Some((proof, false));
        }
        ctx.fault("forged payment proof");
        match src.below(5) {
            0 => {
                let o = proof.user_tx_proof.transaction.outputs.get_mut(0)?;
                o.value = o.value.wrapping_add(1 + src.below(1 << 40) as i64);
            }
            1 => {
                // a transaction of the forger's own under a known block's header
                let o: Vec<(Vec<u8>, i64)> = pay.outs.iter().map(|(a, v)| (a.map_or_else(|| op_return(&[5; 20]), |a| script_of(&a)), *v)).collect();
                let t = self.net.tx(&o);
                let hash = sim_ref_dsha(&t);
                proof.user_tx_proof.tx_encoded_len = t.len() as u32;
                proof.user_tx_proof.transaction = bitcoin::parser::parse_transaction(&t).ok()?;
                let n = proof.user_tx_proof.merkle_proof.hashes.len();
                proof.user_tx_proof.merkle_proof.hashes[src.usize(n)] = bitcoin::types::H256Le::from_bytes_le(&hash);
            }
            2 => {
                let other = src.usize(self.net.blocks.len());
                if other == pay.blk {
                    return None;
                }
                proof.coinbase_proof = self.net.partial(other, 0)?;
            }
            3 => {
                // a block nobody has relayed
                let outs = pay.outs.clone();
                let o: Vec<(Vec<u8>, i64)> = outs.iter().map(|(a, v)| (a.map_or_else(|| op_return(&[5; 20]), |a| script_of(&a)), *v)).collect();
                let t = self.net.tx(&o);
                let b = self.net.mine(pay.blk, vec![t], 600);
                *p = self.pays.len();
                self.pays.push(Pay { blk: b, txi: 1, outs });
                return Some((self.net.proof(b, 1)?, false));
            }
            _ => {
                let n = proof.user_tx_proof.merkle_proof.hashes.len();
                let mut x = proof.user_tx_proof.merkle_proof.hashes[n - 1].to_bytes_le();
                x[src.usize(32)] ^= 1 << src.below(8);
                proof.user_tx_proof.merkle_proof.hashes[n - 1] = bitcoin::types::H256Le::from_bytes_le(&x);
            }
        }
        Some((proof, true))
    }

    fn execute(&mut self, src: &mut Src, ctx: &mut Ctx) {
        if self.pays.is_empty() {
            return;
        }
        let back = src.below(8).min(self.pays.len() as u64 - 1) as usize;
        let mut pay = self.pays.len() - 1 - back;
        if src.bool() {
            let good: Vec<usize> = (0..self.pays.len())
                .filter(|p| self.model.orders.values().any(|o| self.paid(*p, &o.0).map_or(false, |v| v >= o.1)))
                .collect();
            if !good.is_empty() {
                pay = *src.pick(&good);
            }
        }
        let Some((proof, forged)) = self.proof(src, ctx, &mut pay) else { return };
        let fits: Vec<usize> = self
            .model
            .orders
            .iter()
            .filter(|(_, o)| self.pays[pay].outs.iter().any(|x| x.0 == Some(o.0)))
            .map(|x| *x.0)
            .collect();
        let maker = if !fits.is_empty() && src.chance(7, 8) { *src.pick(&fits) } else { src.usize(USERS) };
        let who = src.usize(USERS);
        let value = if src.chance(1, 12) { 1 + src.below(100) as u128 } else { 0 };
        let data = [&selector("execute_trade")[..], &user(maker), &proof.encode()].concat();
        ctx.note(|| format!("user {who} executes the order of {maker} with payment {pay} (forged: {forged}, value {value})"));
        self.submit(src, ctx, Tx { who, value, data, what: What::Execute { maker, pay, forged } });
    }

    fn paid(&self, p: usize, to: &Address) -> Option<u64> {
        let pay = &self.pays[p];
        if self.model.view.included(&self.net, pay.blk, self.model.active).is_err() {
            return None;
        }
        pay.outs.iter().find(|x| x.0 == Some(*to)).and_then(|x| u64::try_from(x.1).ok())
    }

    fn apply(&mut self, ctx: &mut Ctx, tx: &Tx) -> Res {
        match &tx.what {
            What::Header(i) => {
                let call = btc_relay::Call::<Runtime>::store_block_header { block_header: self.net.header(*i), fork_bound: 1000 };
                let r = sim_node::dispatch::<Runtime, _>(call, RawOrigin::Signed(primitives::AccountId::from(user(0))).into());
                let want = self.model.view.accept(&self.net, *i, self.model.active);
                if r.is_ok() != want {
                    // the relay's own properties are decided by sim-relay; the run ends here
                    self.model.ready = false;
                }
                return Ok(());
            }
            _ => {}
        }
        if !self.model.ready {
            return Ok(());
        }
        if self.model.balances[tx.who] < tx.value {
            return Ok(());
        }
        let flip = matches!(tx.what, What::Flip | What::Get);
        let want: Result<Option<(usize, u128)>, &str> = match &tx.what {
            What::Create { min, .. } if *min == 0 => Err("no price"),
            What::Create { .. } => Ok(None),
            What::Execute { .. } if tx.value > 0 => Err("value attached"),
            What::Execute { maker, pay, forged } => match self.model.orders.get(maker) {
                None => Err("no such order"),
                Some((btc, min, planck)) => match self.paid(*pay, btc) {
                    Some(v) if !forged && v >= *min => Ok(Some((*maker, *planck))),
                    _ => Err("not paid"),
                },
            },
            What::Junk => Err("no such message"),
            _ => Ok(None),
        };
        let before = state::hash();
        let e = Entry { contract: if flip { FLIP } else { SWAP }, caller: user(tx.who), value: tx.value, data: tx.data.clone(), create: false, answers: vec![] };
        let r = self.contracts.call(e);
        let panicked = EXT.with(|x| x.borrow_mut().runtime_panic.take());
        ctx.check("C02", "the runtime panicked", panicked.is_none(), || format!("{panicked:?} in {:?}", tx.what))?;
        ctx.check("C02", "an enquiry changed the chain", state::hash() == before, || format!("{:?}", tx.what))?;
        ctx.event(hash_str(&format!("{:?}{}{}", tx.what, tx.who, r.is_ok())));
        ctx.note(|| format!("  user {} {:?} value {}: {r:?}, rule {want:?}", tx.who, tx.what, tx.value));
        if flip {
            if let What::Flip = tx.what {
                self.model.flip = self.model.flip.map(|x| !x);
            }
            ctx.nontrivial |= ctx.is("C03");
            ctx.check("C03", "refused", r.is_ok(), || format!("{:?}: {r:?}", tx.what))?;
        } else {
            if let What::Execute { .. } = tx.what {
                ctx.nontrivial |= ctx.is("C01");
                ctx.probe(match &want {
                    Ok(_) => "order executed",
                    Err("no such order") => "execution refused: no such order",
                    Err("not paid") => "execution refused: not paid",
                    Err(_) => "execution refused: value attached",
                });
            }
            let class = match (&tx.what, r.is_ok()) {
                (What::Execute { .. }, true) => "paid out without a payment",
                (What::Execute { .. }, false) => "paid order not executed",
                (_, true) => "invalid order accepted",
                (_, false) => "order refused",
            };
            ctx.check("C01", class, r.is_ok() == want.is_ok(), || format!("user {} {:?} with {} attached: {r:?}, rule {want:?}", tx.who, tx.what, tx.value))?;
            if r.is_ok() {
                self.model.balances[tx.who] -= tx.value;
                match (&tx.what, want) {
                    (What::Create { btc, min }, _) => {
                        if let Some((_, _, p)) = self.model.orders.insert(tx.who, (*btc, *min, tx.value)) {
                            ctx.probe("order replaced");
                            self.model.balances[tx.who] += p;
                            self.model.locked -= p;
                        }
                        self.model.locked += tx.value;
                    }
                    (What::Execute { .. }, Ok(Some((maker, p)))) => {
                        self.model.orders.remove(&maker);
                        self.model.balances[tx.who] += p;
                        self.model.locked -= p;
                    }
                    _ => {}
                }
            }
        }
        self.compare(ctx)
    }

    fn compare(&self, ctx: &mut Ctx) -> Res {
        let v = self.contracts.flipped();
        ctx.check("C03", "value differs", v == self.model.flip, || format!("the flipper holds {v:?}, its history says {:?}", self.model.flip))?;
        let open: u128 = self.model.orders.values().map(|o| o.2).sum();
        let c = self.contracts.balance(&SWAP);
        ctx.check("C01", "open orders not covered", c == open, || format!("the contract holds {c}, open orders {open}"))?;
        for (i, want) in self.model.balances.iter().enumerate() {
            let got = self.contracts.balance(&user(i));
            ctx.check("C01", "balance differs", got == *want, || format!("user {i} has {got}, should have {want}"))?;
        }
        ctx.state(hash_str(&format!("{:?}{:?}", self.model.orders, self.model.flip)));
        Ok(())
    }

    fn produce(&mut self, src: &mut Src, ctx: &mut Ctx, all: bool) -> Res {
        let saved = (self.model.clone(), self.contracts.journal.len());
        let mut body = vec![];
        let n = if all { self.pool.len() } else { src.usize(7).min(self.pool.len()) };
        for _ in 0..n {
            let i = if src.chance(1, 4) {
                ctx.fault("calls reordered");
                src.usize(self.pool.len())
            } else {
                0
            };
            body.push(self.pool.remove(i));
        }
        let mut crash = if src.chance(1, 12) { Some(src.usize(body.len() + 1)) } else { None };
        loop {
            let mut r = Ok(());
            let out = sim_node::block::<Runtime, _>(None, || {
                System::set_block_number(self.number + 1);
                System::reset_events();
                Security::on_initialize(self.number + 1);
                self.model.active += 1;
                for (i, tx) in body.iter().enumerate() {
                    if crash == Some(i) {
                        std::panic::panic_any(state::SimCrash);
                    }
                    if r.is_ok() {
                        r = self.apply(ctx, tx);
                    }
                }
                if crash == Some(body.len()) {
                    std::panic::panic_any(state::SimCrash);
                }
            });
            match out {
                Ok(()) => {
                    r?;
                    break;
                }
                Err(_) => {
                    ctx.fault("crash inside a block");
                    self.model = saved.0.clone();
                    self.contracts.journal.truncate(saved.1);
                    self.contracts.rebuild();
                    crash = None;
                }
            }
        }
        self.number += 1;
        ctx.sim_time += 12;
        self.compare(ctx)
    }

    /// Another contract asks about a payment, in its own words.
    fn ask(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if self.pays.is_empty() || !self.model.ready {
            return Ok(());
        }
        let back = src.below(8).min(self.pays.len() as u64 - 1) as usize;
        let mut pay = self.pays.len() - 1 - back;
        let Some((proof, forged)) = self.proof(src, ctx, &mut pay) else { return Ok(()) };
        let to = match self.pays[pay].outs.iter().find_map(|x| x.0) {
            Some(a) if src.chance(5, 6) => a,
            _ => address(src),
        };
        let mut addr = to.encode();
        let mut bad = false;
        match src.below(8) {
            0 => {
                addr = match src.below(4) {
                    0 => vec![],
                    1 => addr[..src.usize(addr.len())].to_vec(),
                    2 => vec![src.u8().max(4)],
                    _ => {
                        addr[0] = 4 + src.below(250) as u8;
                        addr
                    }
                };
                bad = true;
            }
            _ => {}
        }
        let mut input = (proof, addr).encode();
        let mut damaged = false;
        if src.chance(1, 6) {
            ctx.fault("damaged enquiry");
            damaged = true;
            match src.below(3) {
                0 => input.truncate(src.usize(input.len())),
                1 => input = { let n = src.usize(80); src.bytes(n) },
                _ => {
                    let i = src.usize(input.len());
                    input[i] ^= 1 << src.below(8);
                }
            }
        }
        let id = if src.chance(1, 10) { *src.pick(&[0u32, 1, 1100, 1102, u32::MAX]) } else { 1101 };
        let before = state::hash();
        let r = catching(|| contract_runtime::extension(id, &input));
        ctx.nontrivial |= ctx.is("C02");
        ctx.event(hash_str(&format!("{id}{bad}{damaged}{:?}", r.is_ok())));
        let r = match r {
            Ok(r) => r.map_err(|e| format!("{e:?}")),
            Err(p) => {
                ctx.check("C02", "the runtime panicked", false, || format!("{p:?} for a {} enquiry", if bad { "bad address" } else { "damaged" }))?;
                return Ok(());
            }
        };
        ctx.check("C02", "an enquiry changed the chain", state::hash() == before, || "storage differs after the enquiry".into())?;
        if id != 1101 {
            return ctx.check("C02", "unknown function answered", r.is_err(), || format!("function {id}: {r:?}"));
        }
        let want = if forged { None } else { self.paid(pay, &to) };
        if damaged {
            // a damaged enquiry may still be an enquiry, but never shows a payment nobody made
            let shown = r.ok().and_then(|(_, o)| Option::<u64>::decode(&mut &o[..]).ok().flatten());
            if let Some(v) = shown {
                let real = (0..self.pays.len()).any(|p| {
                    self.model.view.included(&self.net, self.pays[p].blk, self.model.active).is_ok() && self.pays[p].outs.iter().any(|x| x.1 as u64 == v)
                });
                ctx.check("C02", "payment nobody made", real, || format!("a damaged enquiry shows {v}"))?;
            }
            return Ok(());
        }
        if bad {
            ctx.probe("enquiry with bytes that are no address");
            return ctx.check("C02", "bytes that are no address accepted", r.is_err(), || format!("{r:?}"));
        }
        ctx.probe(if want.is_some() { "payment shown" } else { "no payment shown" });
        let exp = Ok((0u32, want.encode()));
        ctx.check("C02", "wrong answer", r == exp, || format!("payment {:?} to {to:?} (forged: {forged}): answer {r:?}, rule {want:?}", self.pays[pay]))
    }
}

fn sim_ref_dsha(b: &[u8]) -> [u8; 32] {
    sp_core::hashing::sha2_256(&sp_core::hashing::sha2_256(b))
}

impl Scenario for Swap {
    const NAME: &'static str = "swap";
    fn real() -> &'static [&'static str] {
        &["contracts/btc_swap", "contracts/hello_world", "runtime/kintsugi contracts.rs (chain extension)", "btc-relay", "security", "bitcoin", "ink 4.3.0"]
    }
    fn stubs() -> &'static [&'static str] {
        &["frame-system, frame-support", "pallet-contracts (extension interface)", "ink off-chain environment in place of the contracts pallet", "Bitcoin network and proof of work"]
    }
    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        state::disarm_crash();
        state::unwind_to(0);
        state::reset();
        System::reset_events();
        let (k, p) = (1 + src.below(3) as u32, src.below(3) as u32);
        btc_relay::GenesisConfig::<Runtime> {
            bitcoin_confirmations: k,
            parachain_confirmations: p,
            disable_difficulty_check: true,
            disable_inclusion_check: false,
        }
        .build();
        Security::on_initialize(1);
        let mut net = Net::new(700_000);
        let call = btc_relay::Call::<Runtime>::initialize { block_header: net.header(0), block_height: 700_000 };
        let ready = sim_node::dispatch::<Runtime, _>(call, RawOrigin::Signed(primitives::AccountId::from(user(0))).into()).is_ok();
        let mut model = Model { active: 1, view: View::new(0, 1, k, p), ready, ..Default::default() };
        // a chain to stand on
        let mut tip = 0;
        for _ in 0..src.below(4) {
            tip = net.mine(tip, vec![], 600);
            let call = btc_relay::Call::<Runtime>::store_block_header { block_header: net.header(tip), fork_bound: 1000 };
            let _ = sim_node::dispatch::<Runtime, _>(call, RawOrigin::Signed(primitives::AccountId::from(user(0))).into());
            model.view.accept(&net, tip, 1);
        }
        let mut c = Contracts::default();
        for i in 0..USERS {
            let b = src.magnitude(1 << 62);
            c.start.push((user(i), b));
            model.balances.push(b);
        }
        c.start.push((SWAP, 0));
        c.start.push((FLIP, 0));
        c.rebuild();
        let e = Entry { contract: SWAP, caller: user(0), value: 0, data: selector("new").to_vec(), create: true, answers: vec![] };
        let r1 = c.call(e.clone());
        let init = src.below(3);
        let data = match init {
            0 => selector("new_default").to_vec(),
            1 => [&selector("new")[..], &[0]].concat(),
            _ => [&selector("new")[..], &[1]].concat(),
        };
        let r2 = c.call(Entry { contract: FLIP, data, ..e });
        model.flip = Some(init == 2);
        model.ready &= r1.is_ok() && r2.is_ok();
        ctx.note(|| format!("confirmations {k}/{p}, contracts {r1:?} {r2:?}"));
        let w = match ctx.property.as_str() {
            "C03" => vec![1, 1, 1, 1, 8, 6, 0, 1],
            "C02" => vec![2, 5, 7, 2, 0, 6, 6, 2],
            _ => vec![5, 6, 7, 6, 0, 7, 0, 2],
        };
        state::start_transaction();
        Swap {
            tips: [tip, tip],
            net,
            split: false,
            model,
            contracts: c,
            pool: vec![],
            unsent: vec![],
            pays: vec![],
            addrs: vec![],
            number: 1,
            steps: 20 + src.usize(60),
            w,
            loss: src.below(3),
            seen_value: 1,
        }
    }
    fn steps(&self) -> usize {
        self.steps
    }
    fn panic_property(&self) -> Option<&'static str> {
        Some("C02")
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        match src.weighted(&self.w.clone()) {
            0 => self.create(src, ctx),
            1 => self.pay(src, ctx),
            2 => self.mine(src, ctx),
            3 => self.execute(src, ctx),
            4 => {
                let who = src.usize(USERS);
                let flip = src.chance(3, 4);
                let data = selector(if flip { "flip" } else { "get" }).to_vec();
                self.submit(src, ctx, Tx { who, value: 0, data, what: if flip { What::Flip } else { What::Get } });
            }
            5 => return self.produce(src, ctx, false),
            6 => return self.ask(src, ctx),
            _ => {
                if src.chance(2, 3) {
                    // a relayer catches up
                    let n = self.net.blocks.len();
                    for i in n.saturating_sub(6)..n {
                        if self.net.blocks[i].parent.is_some() && !self.model.view.known.contains_key(&i) {
                            self.relay(src, ctx, i);
                        }
                    }
                } else {
                    let who = src.usize(USERS);
                    let mut data = selector(*src.pick(&["cancel_trade", "execute", "new", ""])).to_vec();
                    if src.bool() {
                        data = selector("create_trade").to_vec();
                        data.extend(src.bytes(3));
                    }
                    let value = src.below(50) as u128;
                    self.submit(src, ctx, Tx { who, value, data, what: What::Junk });
                }
            }
        }
        Ok(())
    }
    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.produce(src, ctx, true)?;
        // everything rebuilt from its history is the same again
        ctx.fault("restart");
        self.contracts.rebuild();
        self.compare(ctx)
    }
}
