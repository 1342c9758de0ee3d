// A source file of the client, bundled; what it imports from outside is replaced by the stand-ins given (or by anything).
const any = n => new Proxy(function () {}, { get: (t, k) => k === Symbol.toPrimitive ? () => n : any(n + '.' + String(k)), apply: () => any(n + '()'), construct: () => any(n) })
exports.load = (file, outside = {}) => {
  const r = require('/opt/veriftools/node/node_modules/esbuild').buildSync({ entryPoints: ['/repo/sdk/src/' + file], bundle: true, platform: 'node', format: 'cjs', packages: 'external', write: false, logLevel: 'silent', define: { 'import.meta.url': '"file:///x/"' }, target: 'node20' })
  const m = { exports: {} }
  new Function('require', 'module', 'exports', r.outputFiles[0].text)(n => new Proxy({}, { get: (t, k) => outside[k] !== undefined ? outside[k] : k === '__esModule' ? true : typeof k === 'symbol' ? undefined : any(String(k)), has: () => true }), m, m.exports)
  return m.exports
}
exports.same = (got, want) => {
  const s = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v + 'n' : v instanceof Map ? [...v] : v)
  if (s(got) !== s(want)) { console.log('got ' + s(got) + ', expected ' + s(want)); process.exit(1) }
}
