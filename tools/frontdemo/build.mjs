// Bundles the frontend with stand-ins for the browser and the wasm package:
//   node build.mjs <folder src of the repository> <out.mjs>
import { createRequire } from "node:module";
import path from "node:path";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const here = path.dirname(new URL(import.meta.url).pathname);
const [src, outfile] = process.argv.slice(2);
await esbuild.build({
  entryPoints: [path.join(here, "entry.mjs")],
  outfile,
  bundle: true,
  format: "esm",
  platform: "node",
  target: "esnext",
  logLevel: "error",
  define: { "import.meta.env": JSON.stringify({ DEV: false, PROD: false }) },
  plugins: [
    {
      name: "stand-ins",
      setup(b) {
        b.onResolve({ filter: /^@front\// }, (a) => b.resolve("./" + a.path.slice(7), { resolveDir: src, kind: a.kind }));
        b.onResolve({ filter: /aftermath-core\/pkg$/ }, () => ({ path: path.join(here, "pkg.mjs") }));
        b.onResolve({ filter: /\.css(\?inline)?$|^lil-gui$/ }, (a) => ({ path: a.path, namespace: "nothing" }));
        b.onLoad({ filter: /.*/, namespace: "nothing" }, () => ({ contents: "export default ''; export class GUI { add() { return this; } }", loader: "js" }));
      },
    },
  ],
});
