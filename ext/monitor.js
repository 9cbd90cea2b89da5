// Runtime monitor for the VS Code client (C15).
//
// The client is loaded with stand-ins for `vscode` and `vscode-languageclient/node` which record
// every call and which succeed, fail or wait as the schedule of the case says. Each case is a
// random schedule of graph requests (several of them open at once), resolutions and failures; the
// oracle judges the recorded calls and the replies.
'use strict'
const fs = require('fs')
const path = require('path')
const Module = require('module')

const [, , bundle, seedArg, tier, root] = process.argv
const seed = parseInt(seedArg, 10) || 1
const start = Date.now()
const only = process.env.HIRMON_ONLY ? parseInt(process.env.HIRMON_ONLY, 10) : null

// ---- random numbers (mulberry32)
function rng (a) {
  a = (a * 2654435761 + 12345) >>> 0
  const next = () => {
    a = (a + 0x6D2B79F5) >>> 0
    let t = a
    t = Math.imul(t ^ (t >>> 15), t | 1)
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61)
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296
  }
  return { below: n => Math.floor(next() * n), pick: xs => xs[Math.floor(next() * xs.length)], chance: (p, q) => next() * q < p }
}

class Bad extends Error {
  constructor (what, detail) { super(what); this.detail = detail }
}

const VIEWER = 'graphviz-interactive-preview.preview.beside'

// A stand-in which never fails on members we did not think of
function loose (known) {
  return new Proxy(known, {
    get: (t, k) => {
      if (k in t || typeof k === 'symbol' || k === '__esModule' || k === 'default' || k === 'then') return t[k]
      return loose(Object.assign(function () { return loose(function () {}) }, {}))
    }
  })
}

function world (r) {
  const log = []
  const clients = []
  // Calls which wait for the schedule to settle them
  const open = []
  const call = (name, args) => {
    const c = { name, args, settled: false }
    c.promise = new Promise((resolve, reject) => {
      c.resolve = v => { c.settled = true; resolve(v) }
      c.reject = e => { c.settled = true; reject(e) }
    })
    c.promise.catch(() => {})
    log.push(c)
    open.push(c)
    return c.promise
  }
  class LanguageClient {
    constructor (...args) {
      // (id, name, serverOptions, clientOptions) or (name, serverOptions, clientOptions)
      const o = args.filter(a => typeof a === 'object' && a !== null || typeof a === 'function')
      this.serverOptions = o[0]
      this.clientOptions = o[1]
      this.handlers = new Map()
      this.starts = 0
      this.stops = 0
      this.handlersAtStart = null
      clients.push(this)
    }

    onRequest (type, handler) {
      this.handlers.set(typeof type === 'string' ? type : type.method, handler)
      return { dispose: () => {} }
    }

    onNotification () { return { dispose: () => {} } }
    onDidChangeState () { return { dispose: () => {} } }
    registerFeature () {}
    start () {
      this.starts++
      this.handlersAtStart = new Set(this.handlers.keys())
      return this.startResult
    }

    stop () {
      this.stops++
      this.stopped = new Promise((resolve, reject) => { this.stopNow = resolve; this.stopFail = reject })
      return this.stopped
    }

    dispose () { return this.stop() }
    isRunning () { return this.starts > this.stops }
    needsStop () { return this.starts > this.stops }
  }
  LanguageClient.prototype.startResult = r.chance(1, 4) ? new Promise(() => {}) : Promise.resolve()
  const vscode = loose({
    commands: loose({ executeCommand: (...a) => call('executeCommand', a), registerCommand: () => ({ dispose () {} }) }),
    window: loose({
      showErrorMessage: (...a) => call('showErrorMessage', a),
      showWarningMessage: (...a) => call('showWarningMessage', a),
      showInformationMessage: (...a) => call('showInformationMessage', a),
      showTextDocument: (...a) => call('showTextDocument', a)
    }),
    workspace: loose({ openTextDocument: (...a) => call('openTextDocument', a) }),
    ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2 }
  })
  const lc = loose({
    LanguageClient,
    RequestType: class { constructor (m) { this.method = m } },
    RequestType0: class { constructor (m) { this.method = m } },
    ResponseError: class extends Error { constructor (code, m, data) { super(m); this.code = code; this.data = data } },
    TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }
  })
  return { log, clients, open, vscode, lc }
}

function load (w) {
  const orig = Module._load
  Module._load = function (request, ...rest) {
    if (request === 'vscode') return w.vscode
    if (request === 'vscode-languageclient/node' || request === 'vscode-languageclient') return w.lc
    return orig.call(this, request, ...rest)
  }
  try {
    delete require.cache[require.resolve(bundle)]
    return require(bundle)
  } finally {
    Module._load = orig
  }
}

const quiet = async () => { for (let i = 0; i < 12; i++) await new Promise(resolve => setImmediate(resolve)) }

const GRAPHS = [
  'digraph {}\n', '', ' ', 'digraph { "a" -> "b" }', '0', 'null', 'digraph {\n"é😀" -> "\\"";\n}\n', 'x'.repeat(100000), '\u0000', 'undefined', '\r\n', 'false'
]
const NOGRAPHS = [undefined, null, 0, 1, true, false, {}, [], ['digraph {}'], { content: 'x' }, NaN]
const TITLES = ['CFG for @f', '', 'CFG for @日本', 'a\nb', undefined, 'x'.repeat(300)]

async function one (index, stats) {
  const r = rng((seed * 1000003 + index) >>> 0)
  const w = world(r)
  const script = []
  const fail = (what, extra) => {
    throw new Bad(what, { script, calls: w.log.map(c => ({ name: c.name, args: String(JSON.stringify(c.args)).slice(0, 300) })), extra })
  }
  const ext = load(w)
  const oldPath = process.env.SERVER_PATH
  const custom = r.pick([undefined, undefined, '/opt/x/hyper-ir-lsp', 'relative server'])
  if (custom === undefined) delete process.env.SERVER_PATH
  else process.env.SERVER_PATH = custom
  const marker = 'HIRMON_MARKER_' + index
  process.env[marker] = 'here'
  const abs = p => '/ext dir/' + p
  const context = loose({ asAbsolutePath: abs, subscriptions: [], extensionPath: '/ext dir' })

  if (r.chance(1, 5)) {
    // Deactivation without activation
    const d = ext.deactivate()
    if (d !== undefined && d !== null) await d
    if (w.clients.some(c => c.stops > 0)) fail('deactivation stops a client which never ran')
    script.push('deactivate first')
    stats.early++
  }
  await ext.activate(context)
  await quiet()
  script.push('activate')
  if (w.clients.length !== 1) fail('activation does not make exactly one client', w.clients.length)
  const c = w.clients[0]
  if (c.starts !== 1) fail('the client is not started exactly once', c.starts)
  const so = c.serverOptions
  for (const x of so && so.run ? [so.run, so.debug] : [so]) {
    const want = custom === undefined ? abs('hyper-ir-lsp') : custom
    if (!x || x.command !== want) fail('the client runs another server', { want, got: x && x.command })
    const env = x.options && x.options.env
    if (env && env[marker] !== 'here') fail('the server loses the environment')
  }
  const sel = (c.clientOptions || {}).documentSelector
  const langs = (Array.isArray(sel) ? sel : [sel]).map(s => typeof s === 'string' ? s : s && s.language)
  if (!langs.includes('hir')) fail('the client does not serve Hyper IR documents', sel)
  const handler = c.handlers.get('hyperir/showDot')
  if (typeof handler !== 'function') fail('graph requests are not handled')
  if (!c.handlersAtStart.has('hyperir/showDot')) fail('graph requests are handled only after the start')
  delete process.env[marker]
  if (oldPath === undefined) delete process.env.SERVER_PATH
  else process.env.SERVER_PATH = oldPath

  // Requests; unique graphs tell the calls apart
  const reqs = []
  const seen = new Set()
  let n = 0
  const steps = 4 + r.below(20)
  const plainReqs = { noviewer: 0 }
  const send = () => {
    const id = n++
    let graph = r.chance(1, 4) ? r.pick(NOGRAPHS) : r.pick(GRAPHS)
    if (typeof graph === 'string') {
      if (seen.has(graph)) graph = graph + ' #' + id
      seen.add(graph)
    }
    const title = r.pick(TITLES)
    const params = { dotGraph: graph, title }
    if (graph === undefined && r.chance(1, 2)) delete params.dotGraph
    const q = { id, graph, title, reply: null, stage: 'new' }
    reqs.push(q)
    q.logAt = w.log.length
    script.push('request ' + id + ' ' + (typeof graph === 'string' ? 'graph' : 'no graph'))
    let p
    try {
      p = Promise.resolve(handler(params, { isCancellationRequested: false, onCancellationRequested: () => ({ dispose () {} }) }))
    } catch (e) {
      p = Promise.reject(e)
    }
    p.then(v => { q.reply = { ok: true, v }; q.replies = (q.replies || 0) + 1 }, e => { q.reply = { ok: false, e }; q.replies = (q.replies || 0) + 1 })
    stats.requests++
  }
  const of = (name, pred) => w.log.filter(x => x.name === name && pred(x))
  const viewers = q => of('executeCommand', x => x.args[0] === VIEWER && x.args[1] && x.args[1].content === q.graph)
  const docs = q => of('openTextDocument', x => x.args[0] && x.args[0].content === q.graph)
  const settle = async (x, ok, v) => {
    script.push((ok ? 'resolve ' : 'reject ') + x.name)
    if (ok) x.resolve(v)
    else x.reject(r.pick([new Error('no such command'), 'failed', undefined]))
    stats.faults += ok ? 0 : 1
    await quiet()
  }
  // Advances one request by one step
  const step = async q => {
    if (typeof q.graph !== 'string') {
      await quiet()
      return
    }
    const v = viewers(q)[0]
    if (v && !v.settled) {
      if (r.chance(1, 2)) { await settle(v, true, undefined); q.path = 'viewer' } else { await settle(v, false); q.path = 'fallback' }
      return
    }
    const d = docs(q)[0]
    if (d && !d.settled) {
      const doc = { doc: q.id, uri: 'untitled:' + q.id, getText: () => q.graph }
      q.doc = doc
      const ok = r.chance(4, 5)
      if (!ok) q.path = 'nothing'
      await settle(d, ok, doc)
      return
    }
    const s = q.doc && of('showTextDocument', x => x.args[0] === q.doc || (x.args[0] && x.args[0] === q.doc.uri))[0]
    if (s && !s.settled) {
      const ok = r.chance(4, 5)
      if (!ok) q.path = 'nothing'
      await settle(s, ok, {})
    }
  }
  for (let i = 0; i < steps; i++) {
    if (reqs.length === 0 || r.chance(1, 3)) {
      send()
      if (r.chance(1, 2)) await quiet()
    } else {
      await step(r.pick(reqs))
    }
    // Other notifications are dismissed, or not
    for (const x of w.log) {
      if (!x.settled && /^show(Error|Warning|Information)Message$/.test(x.name) && r.chance(1, 6)) {
        await settle(x, r.chance(5, 6), undefined)
      }
    }
    const openNow = reqs.filter(q => q.reply === null).length
    stats.maxOpen = Math.max(stats.maxOpen, openNow)
  }
  // Everything which waits for the editor is settled in the end; a message of the user is not
  for (let i = 0; i < 6; i++) {
    await quiet()
    for (const q of reqs) await step(q)
  }
  await quiet()

  // The oracle
  let shown = 0
  for (const q of reqs) {
    if (typeof q.graph !== 'string') continue
    const v = viewers(q)
    if (v.length !== 1) fail('the viewer is not asked exactly once for a graph', { request: q.id, times: v.length })
    if (v[0].args[1].title !== q.title) fail('the viewer gets another title', { request: q.id, got: v[0].args[1].title, want: q.title })
    const d = docs(q)
    if (q.path === 'viewer') {
      if (d.length !== 0) fail('a text document although the viewer is there', { request: q.id })
      shown++
      stats.viewer++
    } else {
      if (d.length !== 1) fail('no text document although there is no viewer', { request: q.id, times: d.length })
      if (q.path === 'fallback') {
        const s = of('showTextDocument', x => x.args[0] === q.doc || x.args[0] === q.doc.uri)
        if (s.length !== 1) fail('the text document is not shown exactly once', { request: q.id, times: s.length })
        shown++
        stats.fallback++
      } else {
        stats.nothing++
      }
    }
    if (q.reply === null) fail('a request without a reply', { request: q.id, path: q.path })
    if (q.path !== 'nothing' && !q.reply.ok) fail('a displayed graph is reported as a failure', { request: q.id, path: q.path, error: String(q.reply.e) })
    if (q.reply.ok && (typeof q.reply.v !== 'object' || q.reply.v === null)) fail('not a reply the server accepts', { request: q.id, reply: String(q.reply.v) })
    if (q.replies !== 1) fail('not exactly one reply', { request: q.id })
    stats.replies++
  }
  const wrong = reqs.filter(q => typeof q.graph !== 'string')
  const graphs = new Set(reqs.filter(q => typeof q.graph === 'string').map(q => q.graph))
  for (const q of wrong) {
    if (q.reply === null) fail('a request without a reply', { request: q.id, graph: String(q.graph) })
    stats.wrong++
    stats.replies++
  }
  const errors = of('showErrorMessage', () => true).length
  if (errors < wrong.length) fail('an error is not reported', { wrong: wrong.length, errors })
  for (const x of w.log) {
    if (x.name === 'executeCommand' && x.args[0] === VIEWER && !(x.args[1] && graphs.has(x.args[1].content))) fail('the viewer shows something nobody sent', String(JSON.stringify(x.args)).slice(0, 300))
    if (x.name === 'openTextDocument' && !(x.args[0] && graphs.has(x.args[0].content))) fail('a text document with something nobody sent', String(JSON.stringify(x.args)).slice(0, 300))
  }
  // Errors are reported only where something is wrong
  const failed = reqs.filter(q => q.path === 'fallback' || q.path === 'nothing').length
  if (errors > wrong.length + failed) fail('an error nobody caused', { errors, wrong: wrong.length, failed })

  // Deactivation
  const d = ext.deactivate()
  script.push('deactivate')
  await quiet()
  if (c.stops !== 1) fail('deactivation does not stop the client exactly once', c.stops)
  let over = false
  if (d === undefined || d === null || typeof d.then !== 'function') fail('deactivation does not wait for the client')
  Promise.resolve(d).then(() => { over = true }, () => { over = true })
  await quiet()
  if (over) fail('deactivation ends before the client has stopped')
  if (r.chance(5, 6)) c.stopNow()
  else c.stopFail(new Error('stop failed'))
  await quiet()
  if (!over) fail('deactivation does not end')
  if (c.stops !== 1) fail('deactivation does not stop the client exactly once', c.stops)
  if (w.clients.length !== 1) fail('deactivation makes a client')
  if (r.chance(1, 4)) {
    // Again
    await ext.activate(context)
    await quiet()
    if (w.clients.length !== 2 || w.clients[1].starts !== 1) fail('a second activation makes no new client')
    const d2 = ext.deactivate()
    await quiet()
    if (w.clients[1].stops !== 1 || c.stops !== 1) fail('deactivation does not stop the running client exactly once', w.clients.map(x => x.stops))
    w.clients[1].stopNow()
    await d2
    stats.again++
  }
  return { script, shown }
}

async function main () {
  const stats = { requests: 0, replies: 0, viewer: 0, fallback: 0, nothing: 0, wrong: 0, faults: 0, early: 0, again: 0, maxOpen: 0 }
  const cases = tier === 'thorough' ? 60000 : 4000
  const limit = (tier === 'thorough' ? 300 : 25) * 1000
  const distinct = new Set()
  const samples = []
  const violations = []
  let evaluations = 0
  for (let i = only ?? 0; i < (only === null ? cases : only + 1); i++) {
    if (Date.now() - start > limit) break
    evaluations++
    try {
      const out = await one(i, stats)
      if (out.script.length >= 5 && out.shown >= 1) {
        const k = out.script.join(';')
        if (!distinct.has(k) && samples.length < 3) samples.push({ schedule: out.script })
        distinct.add(k)
      }
    } catch (e) {
      violations.push({ index: i, what: e.message, detail: e instanceof Bad ? e.detail : { stack: e.stack } })
      if (violations.length >= 3) break
    }
  }
  const ev = {
    property: 'C15',
    tier: tier === 'thorough' ? 'thorough' : 'quick',
    seed,
    level: 'exploration',
    coverage: {
      evaluations,
      distinct_nontrivial: distinct.size,
      rule: 'random schedules of graph requests (several open at once), answers and failures of the editor, activation and deactivation; non-trivial: distinct schedule of at least five steps in which a graph was displayed',
      samples,
      observed: stats
    },
    assumptions: ['the stand-ins for vscode and vscode-languageclient behave like the editor in the calls recorded', 'held on the executions observed in this run, not on all executions'],
    wall_s: (Date.now() - start) / 1000,
    violations: violations.length
  }
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(root, 'evidence/C15.json'), JSON.stringify(ev, null, 2) + '\n')
  for (const v of violations) {
    const dir = path.join(root, 'out/C15')
    fs.mkdirSync(dir, { recursive: true })
    const p = path.join(dir, `case-${seed}-${v.index}.json`)
    fs.writeFileSync(p, JSON.stringify({ property: 'C15', ...v, rerun: `HIRMON_ONLY=${v.index} VERIF_SEED=${seed} bash check.sh C15` }, null, 2) + '\n')
    console.log(`C15: ${v.what} ${JSON.stringify(v.detail).slice(0, 1200)}`)
    console.log(`VIOLATION property=C15 replay=${p}`)
  }
  if (violations.length) process.exit(1)
  if (only === null && distinct.size < 2) { console.error('no verdict: nothing observed'); process.exit(3) }
  console.log(`C15: held on ${evaluations} schedules (${distinct.size} distinct non-trivial), ${stats.requests} requests, ${stats.replies} replies, ${ev.wall_s} s`)
  process.exit(0)
}

process.on('unhandledRejection', () => {})
main().catch(e => { console.error(e); process.exit(3) })
