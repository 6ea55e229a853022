const fs = require("fs");
require(process.argv[2]);
globalThis.parserLoaded = parse => {
  for (const text of JSON.parse(fs.readFileSync(process.argv[4]))) {
    const answer = parse(text);
    fs.writeSync(1, ("error" in answer ? "error " + answer.error : "result " + answer.result) + "\n");
  }
  process.exit(0);
};
const go = new Go();
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(r => go.run(r.instance));
