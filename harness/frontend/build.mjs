// Bundles the frontend of /repo with the stand-ins:  node build.mjs <out.mjs>
import { createRequire } from "node:module";
import path from "node:path";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const here = path.dirname(new URL(import.meta.url).pathname);
const src = "/repo/src";
await esbuild.build({
  entryPoints: [path.join(here, "entry.mjs")],
  outfile: process.argv[2],
  bundle: true,
  format: "esm",
  platform: "node",
  target: "esnext",
  logLevel: "error",
  define: { "import.meta.env": JSON.stringify({ DEV: false, PROD: false }) },
  plugins: [
    {
      name: "stand-ins",
      setup(b) {
        b.onResolve({ filter: /^@front\// }, (a) => b.resolve("./" + a.path.slice(7), { resolveDir: src, kind: a.kind }));
        b.onResolve({ filter: /aftermath-core\/pkg$/ }, () => ({ path: path.join(here, "pkg.mjs") }));
        b.onResolve({ filter: /\.css(\?inline)?$/ }, (a) => ({ path: a.path, namespace: "css" }));
        b.onResolve({ filter: /^lil-gui$/ }, (a) => ({ path: a.path, namespace: "css" }));
        b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: "export default ''; export class GUI { add() { return this; } }", loader: "js" }));
      },
    },
  ],
});
