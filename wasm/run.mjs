// node run.mjs HARNESS.wasm ARGS...: what harness/src/sys.rs needs
import fs from 'node:fs';

const [file, ...rest] = process.argv.slice(2);
const args = ['bfmon', ...rest];
const start = process.hrtime.bigint();
let memory, stateFile;
const bytes = (at, len) => Buffer.from(memory.buffer, at >>> 0, len >>> 0);
const text = (at, len) => bytes(at, len).toString('utf8');

const env = {
  arg(i, to, room) {
    if (i >= args.length) return 0;
    const b = Buffer.from(args[i]);
    const n = Math.min(b.length, room);
    b.copy(bytes(to, n), 0, 0, n);
    return n + 1;
  },
  now: () => Number(process.hrtime.bigint() - start) / 1e9,
  write(path, pathLen, data, len) {
    const to = text(path, pathLen);
    fs.writeFileSync(to + '.tmp', bytes(data, len));
    fs.renameSync(to + '.tmp', to);
  },
  state(path, len, probe, idx) {
    stateFile ??= fs.openSync(text(path, len), 'w');
    fs.writeSync(stateFile, `${String(probe).padStart(4)} ${String(idx).padStart(20)}\n`, 0);
  },
  print: (at, len) => fs.writeSync(1, text(at, len) + '\n'),
  exit: (code) => process.exit(code),
};

try {
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(file), { env });
  memory = instance.exports.memory;
  instance.exports.main(0, 0);
} catch (e) {
  // A trap: an abort, a stack overflow, ...
  fs.writeSync(2, `the WebAssembly program died: ${e && e.stack}\n`);
  process.exit(134);
}
