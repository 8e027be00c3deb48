// Validate histories of documents with the real schema and keyword.
// argv: directory with schema.json and lib/; stdin: one history per line.
import fs from 'node:fs'
import path from 'node:path'
import readline from 'node:readline'
import vm from 'node:vm'
import { spawnSync } from 'node:child_process'
import { pathToFileURL } from 'node:url'

const dir = process.argv[2]
const Ajv = (await import(pathToFileURL(path.join(dir, 'node_modules/ajv/dist/2020.js')))).default
const defaultsKeyword = (await import(pathToFileURL(path.join(dir, 'lib/ajv-keyword-defaults.js')))).default
const schema = JSON.parse(fs.readFileSync(path.join(dir, 'schema.json')))
const Ctor = Ajv.default ?? Ajv
const fresh = () => new Ctor({ allErrors: false, discriminator: true, keywords: [defaultsKeyword()] }).compile(schema)
const shared = fresh()

// a later user of the document writes into it
function scribble (v) {
  if (Array.isArray(v)) {
    v.forEach(scribble)
    v.push('scribbled')
  } else if (v && typeof v === 'object') {
    Object.values(v).forEach(scribble)
    v.scribbled = true
  }
}
function cli (doc, base) {
  const f = path.join(dir, base + '.json')
  fs.writeFileSync(f, JSON.stringify(doc))
  const r = spawnSync(process.execPath, ['bin/validate-asg.js', '--out', f], { cwd: dir, encoding: 'utf8' })
  fs.unlinkSync(f)
  if (r.status !== 0) return { valid: false, crash: r.stderr.slice(0, 400), result: doc }
  let out = r.stdout
  const bad = out.startsWith(f + '\n')
  if (bad) {
    // the error object comes first, the document last
    out = out.slice(out.lastIndexOf('\n{') + 1)
  }
  return { valid: !bad, result: JSON.parse(JSON.stringify(vm.runInNewContext('(' + out + ')'))) }
}
for await (const line of readline.createInterface({ input: process.stdin })) {
  const h = JSON.parse(line)
  const validate = h.fresh ? fresh() : shared
  const out = []
  h.docs.forEach((doc, k) => {
    if (h.cli) return out.push(cli(doc, 'd' + h.id + '-' + k))
    const data = structuredClone(doc)
    const valid = validate(data)
    const result = structuredClone(data)
    const again = validate(data)
    out.push({ valid, result, again: { valid: again, result: structuredClone(data) } })
    if (h.scribble) scribble(data)
  })
  console.log(JSON.stringify({ id: h.id, docs: out }))
}
