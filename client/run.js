// Runs the client (/repo/sdk/src) against the checker: one request per line on stdin, one answer per line on stdout.
// While a request is served, the client's own requests (to the computing core, to the contract) go the other way.
'use strict'
const fs = require('fs')
const path = require('path')
const { TypeRegistry, Codec, codec, toHex, fromHex, isHex } = require('./stubs.js')
console.log = console.info = console.warn = console.error = () => {}

// ---- the line protocol
let rest = Buffer.alloc(0)
const line = () => {
  for (;;) {
    const n = rest.indexOf(10)
    if (n >= 0) { const s = rest.subarray(0, n).toString(); rest = rest.subarray(n + 1); return s }
    const b = Buffer.alloc(1 << 16)
    let k
    try { k = fs.readSync(0, b, 0, b.length, null) } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') process.exit(0); throw e }
    if (k === 0) process.exit(0)
    rest = Buffer.concat([rest, b.subarray(0, k)])
  }
}
const say = s => { const b = Buffer.from(s + '\n'); let i = 0; while (i < b.length) { try { i += fs.writeSync(1, b, i) } catch (e) { if (e.code !== 'EAGAIN') throw e } } }
const out = v => {
  if (v === undefined || v === null) return null
  if (typeof v === 'bigint') return '#' + v
  if (v instanceof Codec) return out(v.toJSON())
  if (v instanceof Uint8Array) return toHex(v)
  if (v instanceof Map) return { $map: [...v].map(([a, b]) => [out(a), out(b)]) }
  if (Array.isArray(v)) return v.map(out)
  if (typeof v === 'object' && ![Object.prototype, null].includes(Object.getPrototypeOf(v))) return { $is: v.constructor && v.constructor.name }
  if (typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([a, b]) => [a, out(b)]))
  if (typeof v === 'number' && !Number.isFinite(v)) return String(v)
  return v
}
const inn = v => {
  if (typeof v === 'string') return /^#-?\d+$/.test(v) ? BigInt(v.slice(1)) : v
  if (v === null || typeof v !== 'object') return v
  if (Array.isArray(v)) return v.map(inn)
  if ('$map' in v) return new Map(v.$map.map(([a, b]) => [inn(a), inn(b)]))
  if ('$api' in v) return api
  if ('$raw' in v) return fromHex(v.$raw)
  if ('$signer' in v) return { address: v.$signer, addressRaw: fromHex(v.$signer) }
  return Object.fromEntries(Object.entries(v).map(([a, b]) => [a, inn(b)]))
}
const ask = q => { say(JSON.stringify(q)); return JSON.parse(line()) }
/** A function of the computing core. */
const core = f => (...a) => {
  const r = ask({ q: 'core', f, a: a.map(out) })
  if ('t' in r) throw r.t
  return inn(r.r)
}

// ---- what the client imports
const ZERO = '0x' + '00'.repeat(32)
const subscribers = []
const bytes = h => new Codec({ k: 'bytes' }, fromHex(h))
const id = h => codec('[u8;32]', h)
const strings = payload => { const t = codec('(String, String)', payload); return [t[0].toString(), t[1].toString()] }
const emit = (source, events) => { for (const e of events) for (const s of [...subscribers]) s({ data: { message: { source: id(source), destination: id(ZERO), payload: bytes(e) } } }) }
class TransactionBuilder {
  constructor(api, registry, kind, payload, payloadType, responseType, target) {
    this.api = api; this.registry = registry; this.kind = kind; this.responseType = responseType; this.target = target
    this.payload = registry.createType(payloadType, payload).toHex()
    this.value = 0n
    this.programId = kind === 'send_message' ? target : '0x' + 'cc'.repeat(32)
    this._tx = this
  }
  withGas(g) { this.gas = g; return this }
  withValue(v) { this.value = BigInt(v); return this }
  withAccount(a, options) { this.account = a; return this }
  withVoucher() { return this }
  async calculateGas() { return this }
  get extrinsic() { return this._tx }
  send(account) {
    const who = account || this.account
    const from = typeof who === 'string' ? who : who && who.addressRaw && toHex(who.addressRaw)
    return ask({ q: 'send', kind: this.kind, to: typeof this.target === 'string' ? this.target : null, from: from || null, payload: this.payload, value: '#' + this.value })
  }
  decode(hex) { return this.registry.createType(this.kind === 'send_message' ? `(String, String, ${this.responseType})` : `(String, ${this.responseType})`, hex) }
  async signAndSend() {
    await turn()
    const r = this.send()
    if (r.fatal) throw new Error(r.fatal)
    emit(this.programId, r.events)
    return {
      msgId: ZERO, blockHash: ZERO, txHash: ZERO, isFinalized: Promise.resolve(true),
      response: async () => {
        if ('err' in r) throw new Error(r.err)
        const x = this.decode(r.ok)
        return (this.kind === 'send_message' ? x[2] : x[1]).toJSON()
      }
    }
  }
}
// replies arrive one by one, in an order of the checker's choosing where it has asked for that
let gate = null
const turn = () => gate ? new Promise(go => gate.push(go)) : Promise.resolve()
let replies = []
const api = {
  registry: new TypeRegistry(),
  blockGasLimit: codec('u64', 750_000_000_000),
  existentialDeposit: codec('u128', 10),
  message: {
    calculateReply: async q => {
      const r = ask({ q: 'query', to: q.destination, payload: typeof q.payload === 'string' ? q.payload : toHex(q.payload) })
      await turn()
      if ('err' in r) throw new Error(r.err)
      return { payload: bytes(r.ok), value: codec('u128', 0), code: { isSuccess: true } }
    },
    getReplyEvent: async (to, msgId) => {
      const r = replies[parseInt(msgId, 16)]
      return {
        data: { message: {
          payload: 'ok' in r ? bytes(r.ok) : codec('String', r.err),
          details: { unwrap: () => ({ code: { isSuccess: 'ok' in r, isError: !('ok' in r) } }), isSome: true, isNone: false }
        } }
      }
    }
  },
  gearEvents: { subscribeToGearEvent: async (name, f) => { if (name === 'UserMessageSent') subscribers.push(f); return () => { const i = subscribers.indexOf(f); if (i >= 0) subscribers.splice(i, 1) } } },
  blocks: { subscribeNewHeads: async () => () => {} },
  getExtrinsicFailedError: e => e,
  tx: { utility: {} }
}
// all or nothing is about the messages being queued: each is then processed on its own
for (const f of ['batchAll', 'batch', 'forceBatch']) api.tx.utility[f] = txs => {
  const b = {
    signAsync: async a => { b.account = a; return b },
    signAndSend: async (a, cb) => { b.account = a; return b.send(cb) },
    send: async cb => {
      replies = txs.map(t => t.send(b.account))
      const event = (section, method, data) => ({ event: { section, method, data } })
      const num = i => '0x' + i.toString(16).padStart(64, '0')
      const status = { isInBlock: true, isFinalized: false, asInBlock: id(ZERO) }
      cb({ status: { isInBlock: false, isFinalized: false, isReady: true }, events: [] })
      cb({ status, events: [...txs.map((t, i) => event('gear', 'MessageQueued', { id: id(num(i)), destination: id(t.programId) })), event('system', 'ExtrinsicSuccess', {})] })
      replies.forEach(r => emit(txs[0].programId, r.events || []))
      return () => {}
    }
  }
  return b
}
const anything = name => new Proxy(function () {}, {
  get: (t, k) => k === Symbol.toPrimitive ? () => name : anything(`${name}.${String(k)}`),
  apply: () => { throw new Error(`the harness has no ${name}`) },
  construct: () => { throw new Error(`the harness has no ${name}`) }
})
const open = (name, known) => new Proxy(known, { get: (t, k) => k in t ? t[k] : k === '__esModule' ? true : typeof k === 'symbol' ? undefined : anything(`${name}.${k}`), has: () => true })
const decodeAddress = a => typeof a === 'string' && isHex(a) ? a : ZERO
const modules = {
  'fs/promises': { readFile: async name => Uint8Array.from(Buffer.from(String(name).split('/').pop())) },
  '@gear-js/api': { GearApi: { create: async () => api }, decodeAddress, ZERO_ADDRESS: ZERO },
  '@polkadot/types': { TypeRegistry },
  '@polkadot/util': { u8aToHex: toHex, hexToU8a: fromHex, isHex, u8aToU8a: x => x instanceof Uint8Array ? x : fromHex(x), isU8a: x => x instanceof Uint8Array },
  '@polkadot/util-crypto': { decodeAddress: a => fromHex(decodeAddress(a)) },
  'sails-js': { TransactionBuilder, ZERO_ADDRESS: ZERO, getServiceNamePrefix: p => strings(p)[0], getFnNamePrefix: p => strings(p)[1] },
  '@invariant-labs/vara-sdk-wasm': new Proxy({}, { get: (t, k) => typeof k === 'symbol' ? undefined : k === '__esModule' ? true : t[k] || (t[k] = core(k)), has: () => true })
}
const load = () => {
  const esbuild = require('/opt/veriftools/node/node_modules/esbuild')
  const src = process.env.MC_REPO ? process.env.MC_REPO + '/sdk/src' : '/repo/sdk/src'
  const r = esbuild.buildSync({
    stdin: { contents: ['utils', 'invariant', 'consts', 'computed-consts', 'erc20', 'schema', 'index'].map(m => `export * as ${m.replace('-', '_')} from './${m}.ts'`).join('\n'), resolveDir: src, loader: 'ts' },
    bundle: true, platform: 'node', format: 'cjs', packages: 'external', write: false, logLevel: 'silent', define: { 'import.meta.url': '"file:///client/src/"' }, target: 'node20', absWorkingDir: src
  })
  const m = { exports: {} }
  new Function('require', 'module', 'exports', r.outputFiles[0].text)(n => modules[n] ? (n === '@invariant-labs/vara-sdk-wasm' ? modules[n] : open(n, modules[n])) : n.startsWith('node:') || require('module').builtinModules.includes(n) ? require(n) : open(n, {}), m, m.exports)
  return m.exports
}

// ---- serving
let lib, inv, token, heard = []
const KINDS = ['PositionCreatedEvent', 'PositionRemovedEvent', 'CrossTickEvent', 'SwapEvent']
const called = (x, f, a) => {
  const on = { inv, token, Invariant: lib.invariant.Invariant, FungibleToken: lib.erc20.FungibleToken, ...lib }[x]
  if (typeof on[f] !== 'function') { if (f in on) return on[f]; throw new Error(`there is no ${x}.${f}`) }
  return on[f](...a)
}
const message = e => String(e && e.message !== undefined ? e.message : e)
const settled = () => new Promise(go => setImmediate(go))
const special = {
  /** A fresh client; a[0] is the program. */
  $load: async pid => {
    lib = lib || load()
    subscribers.length = 0
    inv = await lib.invariant.Invariant.load(api, pid)
    token = await lib.erc20.FungibleToken.load(api)
    for (const ident of KINDS) inv.on({ ident, callback: e => { heard.push([ident, e]) } })
    return null
  },
  /** Several requests in one transaction. */
  $batch: async (who, calls) => {
    const txs = []
    for (const [fn, args] of calls) txs.push(await inv[fn + 'Tx'](...args))
    try { await lib.utils.batchTxs(api, who, txs) } catch (e) { if (e && e.failedTxs) return [...e.failedTxs.keys()]; throw e }
    return []
  },
  /** Several calls at once; every reply waits for its turn, taken from the choices, then the first in line. */
  $all: async (calls, choices) => {
    const done = calls.map(() => null)
    let open = calls.length
    const widths = []
    gate = []
    try {
      calls.forEach(([x, f, a], i) => { (async () => called(x, f, a))().then(v => { done[i] = { r: v } }, e => { done[i] = { e: message(e) } }).finally(() => { open-- }) })
      for (;;) {
        await settled()
        if (open === 0) break
        if (gate.length === 0) throw new Error('the client waits for nothing')
        const k = Number(choices[widths.length] || 0)
        widths.push(gate.length)
        gate.splice(k, 1)[0]()
      }
    } finally { gate = null }
    return { done, widths }
  },
  /** A fresh client whose listeners come and go; what they hear. */
  $listen: async (pid, ops) => {
    const were = subscribers.splice(0)
    try {
      const c = await lib.invariant.Invariant.load(api, pid)
      const log = []
      const callbacks = new Map()
      for (const [op, ident, x, to] of ops) {
        const key = `${ident}:${x}`
        if (op === 'emit') { for (const s of [...subscribers]) s({ data: { message: { source: id(to[0]), destination: id(to[1]), payload: bytes(x) } } }); continue }
        if (x !== null && !callbacks.has(key)) callbacks.set(key, e => { log.push([Number(x), ident, e]) })
        c[op]({ ident, callback: x === null ? undefined : callbacks.get(key) })
      }
      return log
    } finally { subscribers.splice(0); subscribers.push(...were) }
  }
}
const serve = async r => {
  const a = r.a.map(inn)
  return special[r.fn] ? special[r.fn](...a) : called(r.on, r.fn, a)
}
const main = async () => {
  for (;;) {
    const r = JSON.parse(line())
    heard = []
    let o
    try { const v = await serve(r); o = { r: out(v), ev: out(heard) } } catch (e) { o = { e: message(e), ev: out(heard) } }
    say(JSON.stringify(o))
  }
}
main()
