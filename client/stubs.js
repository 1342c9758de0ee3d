// What the client imports from elsewhere, as far as it uses it: SCALE types, the message builder, the node's API,
// and the computing core (served natively by the checker). Anything else is an object that can be imported but not used.
'use strict'
const HEX = '0123456789abcdef'
const toHex = u8 => { let s = '0x'; for (const b of u8) s += HEX[b >> 4] + HEX[b & 15]; return s }
const fromHex = s => { const n = (s.length - 2) / 2; const r = new Uint8Array(n); for (let i = 0; i < n; i++) r[i] = parseInt(s.substr(2 + 2 * i, 2), 16); return r }
const isHex = s => typeof s === 'string' && /^0x([0-9a-f]{2})*$/i.test(s)

/** Splits at top-level commas. */
const split = s => {
  const r = []; let d = 0, last = 0
  for (let i = 0; i < s.length; i++) {
    const c = s[i]
    if ('(<[{'.includes(c)) d++
    else if (')>]}'.includes(c)) d--
    else if (c === ',' && d === 0) { r.push(s.slice(last, i).trim()); last = i + 1 }
  }
  if (s.slice(last).trim()) r.push(s.slice(last).trim())
  return r
}
class TypeRegistry {
  constructor() { this.types = {}; this.cache = new Map() }
  setKnownTypes(t) { if (t.types) Object.assign(this.types, t.types) }
  register(t) { Object.assign(this.types, t) }
  def(name) {
    let d = this.cache.get(name)
    if (!d) { d = this.parse(name.trim()); this.cache.set(name, d) }
    return d
  }
  parse(s) {
    if (s in this.types) {
      const t = this.types[s]
      if (typeof t === 'string') return this.def(t)
      if (t._enum) {
        if (Array.isArray(t._enum)) return { k: 'enum', v: t._enum.map(n => [n, null]) }
        return { k: 'enum', v: Object.entries(t._enum).map(([n, x]) => [n, x === null ? null : this.def(x)]) }
      }
      return { k: 'struct', f: Object.entries(t).map(([n, x]) => [n, this.def(x)]) }
    }
    let m
    if (s === 'Null' || s === '()') return { k: 'null' }
    if (s === 'bool') return { k: 'bool' }
    if (s === 'String' || s === 'Text' || s === 'str') return { k: 'str' }
    if (s === 'Bytes') return { k: 'bytes' }
    if ((m = /^[uUiI](8|16|32|64|128|256)$/.exec(s))) return { k: 'int', n: +m[1], signed: s[0].toLowerCase() === 'i' }
    // the wrappers of single values are dropped
    if (s[0] === '(') {
      if (s[s.length - 1] !== ')') throw new Error(`Unable to create type ${s}`)
      const f = split(s.slice(1, -1)).map(x => this.def(x))
      return f.length === 1 ? f[0] : { k: 'tuple', f }
    }
    if (s[0] === '{') return { k: 'struct', f: Object.entries(JSON.parse(s)).map(([n, x]) => [n, this.def(x)]) }
    if ((m = /^\[\s*u8\s*;\s*(\d+)\s*\]$/.exec(s))) return { k: 'fixed', n: +m[1] }
    if ((m = /^\[(.*);\s*(\d+)\s*\]$/.exec(s))) return { k: 'tuple', f: Array(+m[2]).fill(this.def(m[1])) }
    if ((m = /^(Vec|Option|Result|Compact)<(.*)>$/.exec(s))) {
      const a = split(m[2]).map(x => this.def(x))
      if (m[1] === 'Vec') return { k: 'vec', e: a[0] }
      if (m[1] === 'Option') return { k: 'option', e: a[0] }
      if (m[1] === 'Result') return { k: 'result', ok: a[0], err: a[1] }
    }
    throw new Error(`Unable to create type ${s}`)
  }
  createType(name, value) {
    const d = this.def(name)
    if (value instanceof Codec) value = value.d.k === 'bytes' ? value.v : value.toU8a()
    const raw = value instanceof Uint8Array || (isHex(value) && !['fixed', 'bytes', 'int', 'str'].includes(d.k)) || (isHex(value) && d.k === 'str')
    if (raw) { const r = { b: value instanceof Uint8Array ? value : fromHex(value), i: 0 }; return wrap(d, read(d, r)) }
    return wrap(d, norm(d, value))
  }
}
const bytesOf = (v, n) => {
  const u = v instanceof Uint8Array ? v : isHex(v) ? fromHex(v) : Array.isArray(v) ? Uint8Array.from(v) : v instanceof Codec ? v.toU8a() : null
  if (!u) throw new Error(`Expected input with ${n} bytes`)
  if (u.length !== n) throw new Error(`Expected input with ${n} bytes (${n * 8} bits), found ${u.length} bytes`)
  return u
}
/** Brings a value into the canonical form of its type. */
const norm = (d, v) => {
  if (v instanceof Codec) v = v.toJSON()
  switch (d.k) {
    case 'null': return null
    case 'bool': return !!v
    case 'str': return v === undefined || v === null ? '' : String(v)
    case 'bytes': return v instanceof Uint8Array ? v : isHex(v) ? fromHex(v) : new Uint8Array(Buffer.from(String(v)))
    case 'fixed': return bytesOf(v, d.n)
    case 'int': {
      if (v === undefined || v === null) return 0n
      if (typeof v === 'number' && !Number.isSafeInteger(v)) throw new Error('Number needs to be an integer <= Number.MAX_SAFE_INTEGER')
      if (!['number', 'bigint', 'string'].includes(typeof v)) throw new Error(`Unable to create an integer from ${typeof v}`)
      const x = BigInt(v), b = BigInt(d.n)
      if (!d.signed && x < 0n) throw new Error(`u${d.n}: Negative number passed to unsigned type`)
      if (d.signed ? x >= 1n << (b - 1n) || x < -(1n << (b - 1n)) : x >= 1n << b) throw new Error(`${d.signed ? 'i' : 'u'}${d.n}: Input too large`)
      return x
    }
    case 'struct':
      if (typeof v !== 'object' || v === null) throw new Error('Struct: cannot decode value')
      return d.f.map(([n, t], i) => norm(t, Array.isArray(v) ? v[i] : v instanceof Map ? v.get(n) : v[n]))
    case 'tuple':
      if (!Array.isArray(v)) throw new Error('Expected array input to Tuple decoding')
      return d.f.map((t, i) => norm(t, v[i]))
    case 'vec':
      if (!Array.isArray(v)) throw new Error('Expected array input to Vec decoding')
      return v.map(x => norm(d.e, x))
    case 'option': return v === null || v === undefined ? null : { some: norm(d.e, v) }
    case 'result': {
      const k = Object.keys(v).find(x => ['ok', 'err'].includes(x.toLowerCase()))
      return k.toLowerCase() === 'ok' ? { ok: norm(d.ok, v[k]) } : { err: norm(d.err, v[k]) }
    }
    case 'enum': {
      const i = typeof v === 'string' ? d.v.findIndex(x => x[0].toLowerCase() === v.toLowerCase()) : d.v.findIndex(x => x[0].toLowerCase() === Object.keys(v)[0].toLowerCase())
      if (i < 0) throw new Error('Unable to find enum variant')
      return { i, v: d.v[i][1] ? norm(d.v[i][1], Object.values(v)[0]) : null }
    }
  }
}
const take = (r, n) => { if (r.i + n > r.b.length) throw new Error('Unable to decode: input too short'); r.i += n; return r.b.subarray(r.i - n, r.i) }
const readCompact = r => {
  const b = take(r, 1)[0]
  if ((b & 3) === 0) return b >> 2
  if ((b & 3) === 1) return (b >> 2) | (take(r, 1)[0] << 6)
  if ((b & 3) === 2) { const x = take(r, 3); return ((b >> 2) | (x[0] << 6) | (x[1] << 14) | (x[2] << 22)) >>> 0 }
  const n = (b >> 2) + 4; let v = 0; const x = take(r, n)
  for (let i = n - 1; i >= 0; i--) v = v * 256 + x[i]
  return v
}
const read = (d, r) => {
  switch (d.k) {
    case 'null': return null
    case 'bool': { const b = take(r, 1)[0]; return b !== 0 }
    case 'str': return Buffer.from(take(r, readCompact(r))).toString()
    case 'bytes': return Uint8Array.from(take(r, readCompact(r)))
    case 'fixed': return Uint8Array.from(take(r, d.n))
    case 'int': {
      const b = take(r, d.n / 8); let v = 0n
      for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i])
      return d.signed ? BigInt.asIntN(d.n, v) : v
    }
    case 'struct': return d.f.map(x => read(x[1], r))
    case 'tuple': return d.f.map(x => read(x, r))
    case 'vec': { const n = readCompact(r); const a = []; for (let i = 0; i < n; i++) a.push(read(d.e, r)); return a }
    case 'option': return take(r, 1)[0] ? { some: read(d.e, r) } : null
    case 'result': return take(r, 1)[0] === 0 ? { ok: read(d.ok, r) } : { err: read(d.err, r) }
    case 'enum': { const i = take(r, 1)[0]; if (i >= d.v.length) throw new Error('Unable to decode enum'); return { i, v: d.v[i][1] ? read(d.v[i][1], r) : null } }
  }
}
const compact = (n, o) => {
  if (n < 64) o.push(n << 2)
  else if (n < 16384) o.push(((n << 2) | 1) & 255, n >> 6)
  else if (n < 1 << 30) o.push(((n << 2) | 2) & 255, (n >> 6) & 255, (n >> 14) & 255, n >> 22)
  else throw new Error('too long')
}
const write = (d, v, o) => {
  switch (d.k) {
    case 'null': return
    case 'bool': o.push(v ? 1 : 0); return
    case 'str': { const b = Buffer.from(v); compact(b.length, o); o.push(...b); return }
    case 'bytes': compact(v.length, o); for (const b of v) o.push(b); return
    case 'fixed': for (const b of v) o.push(b); return
    case 'int': { let x = BigInt.asUintN(d.n, v); for (let i = 0; i < d.n / 8; i++) { o.push(Number(x & 255n)); x >>= 8n } return }
    case 'struct': d.f.forEach((f, i) => write(f[1], v[i], o)); return
    case 'tuple': d.f.forEach((f, i) => write(f, v[i], o)); return
    case 'vec': compact(v.length, o); v.forEach(x => write(d.e, x, o)); return
    case 'option': if (v === null) o.push(0); else { o.push(1); write(d.e, v.some, o) } return
    case 'result': if ('ok' in v) { o.push(0); write(d.ok, v.ok, o) } else { o.push(1); write(d.err, v.err, o) } return
    case 'enum': o.push(v.i); if (v.v !== null) write(d.v[v.i][1], v.v, o); return
  }
}
const bigHex = (v, n) => '0x' + (v < 0n ? BigInt.asUintN(n, v) : v).toString(16).padStart(n / 4, '0')
const json = (d, v) => {
  switch (d.k) {
    case 'fixed': case 'bytes': return toHex(v)
    // small values are numbers, large ones big-endian hex
    case 'int': { const a = v < 0n ? -v : v; return d.n > 128 || a >= 1n << 52n ? bigHex(v, d.n) : Number(v) }
    case 'struct': return Object.fromEntries(d.f.map(([n, t], i) => [n, json(t, v[i])]))
    case 'tuple': return d.f.map((t, i) => json(t, v[i]))
    case 'vec': return v.map(x => json(d.e, x))
    case 'option': return v === null ? null : json(d.e, v.some)
    case 'result': return 'ok' in v ? { ok: json(d.ok, v.ok) } : { err: json(d.err, v.err) }
    case 'enum': return d.v.every(x => x[1] === null) ? d.v[v.i][0] : { [d.v[v.i][0][0].toLowerCase() + d.v[v.i][0].slice(1)]: v.v === null ? null : json(d.v[v.i][1], v.v) }
    default: return v
  }
}
class Codec {
  constructor(d, v) { this.d = d; this.v = v }
  toU8a() { const o = []; write(this.d, this.v, o); return Uint8Array.from(o) }
  toHex() { return this.d.k === 'int' ? bigHex(this.v, this.d.n) : this.d.k === 'fixed' || this.d.k === 'bytes' ? toHex(this.v) : toHex(this.toU8a()) }
  toJSON() { return json(this.d, this.v) }
  toHuman() { return this.toJSON() }
  toPrimitive() { return this.toJSON() }
  toNumber() { const x = Number(this.v); if (!Number.isSafeInteger(x)) throw new Error('Number can only safely store up to 53 bits'); return x }
  toBigInt() { return BigInt(this.v) }
  toBn() { return BigInt(this.v) }
  toString() { return this.d.k === 'int' ? this.v.toString() : typeof this.v === 'string' ? this.v : JSON.stringify(this.toJSON()) }
  valueOf() { return this.d.k === 'int' ? this.v : this }
  get isTrue() { return this.d.k === 'bool' && this.v === true }
  get isFalse() { return this.d.k === 'bool' && this.v === false }
  get isOk() { return this.d.k === 'result' && 'ok' in this.v }
  get isErr() { return this.d.k === 'result' && 'err' in this.v }
  get asOk() { return wrap(this.d.ok, this.v.ok) }
  get asErr() { return wrap(this.d.err, this.v.err) }
  get isSome() { return this.d.k === 'option' && this.v !== null }
  get isNone() { return this.d.k === 'option' && this.v === null }
  unwrap() { return this.d.k === 'option' ? wrap(this.d.e, this.v.some) : this }
  get length() { return Array.isArray(this.v) ? this.v.length : undefined }
  eq(o) { const h = o instanceof Codec ? o.toHex() : o instanceof Uint8Array ? toHex(o) : o; return this.toHex() === h }
  *[Symbol.iterator]() { for (let i = 0; i < this.v.length; i++) yield this[i] }
}
/** Fields of tuples, lists and structs are reachable by index and name. */
const wrap = (d, v) => {
  const c = new Codec(d, v)
  if (d.k === 'tuple') d.f.forEach((t, i) => Object.defineProperty(c, i, { get: () => wrap(t, v[i]), enumerable: true }))
  if (d.k === 'vec') v.forEach((x, i) => Object.defineProperty(c, i, { get: () => wrap(d.e, x), enumerable: true }))
  if (d.k === 'struct') d.f.forEach(([n, t], i) => { if (!(n in c)) Object.defineProperty(c, n, { get: () => wrap(t, v[i]), enumerable: true }) })
  return c
}
const plain = new TypeRegistry()
const codec = (type, v) => plain.createType(type, v)

module.exports = { TypeRegistry, Codec, codec, toHex, fromHex, isHex }
