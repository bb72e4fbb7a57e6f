"use strict";
// Loads the type-checked program of /repo's *current source* (all packages, workspace imports mapped to src).
const path = require("path");
const fs = require("fs");
const { createRequire } = require("module");

const REPO = process.env.VERIF_REPO || "/repo";

function loadTs() {
  const cands = [
    "/opt/veriftools/node/node_modules/",
    path.join(REPO, "node_modules") + "/",
  ];
  for (const c of cands) {
    try {
      return createRequire(c)("typescript");
    } catch (_) {}
  }
  throw new Error("typescript not found");
}
const ts = loadTs();

function listFiles(dir, out) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) {
      if (e.name === "node_modules" || e.name === "dist") continue;
      listFiles(p, out);
    } else if (/\.tsx?$/.test(e.name) && !/\.(test|spec)\.tsx?$/.test(e.name) && !/\.d\.ts$/.test(e.name)) out.push(p);
  }
  return out;
}

function loadProject(opts = {}) {
  const pkgsDir = path.join(REPO, "packages");
  const pkgs = fs.readdirSync(pkgsDir).filter((p) => fs.existsSync(path.join(pkgsDir, p, "src")));
  const files = [];
  const paths = {};
  const pkgNames = {};
  for (const p of pkgs) {
    const pj = JSON.parse(fs.readFileSync(path.join(pkgsDir, p, "package.json"), "utf8"));
    pkgNames[p] = pj.name;
    paths[pj.name] = [path.join(pkgsDir, p, "src/index.ts")];
    if (!opts.packages || opts.packages.includes(p)) listFiles(path.join(pkgsDir, p, "src"), files);
  }
  files.sort();
  const base = ts.readConfigFile(path.join(REPO, "tsconfig.base.json"), ts.sys.readFile);
  const parsed = ts.parseJsonConfigFileContent(base.config || {}, ts.sys, REPO);
  const options = {
    ...parsed.options,
    noEmit: true,
    paths,
    rootDir: undefined,
    outDir: undefined,
    composite: false,
    incremental: false,
    declaration: false,
    declarationMap: false,
    types: ["node"],
    typeRoots: [path.join(REPO, "node_modules/@types")],
    lib: ["lib.es2022.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts"],
    skipLibCheck: true,
  };
  delete options.configFilePath;
  const host = ts.createCompilerHost(options, true);
  const program = ts.createProgram({ rootNames: files, options, host });
  const checker = program.getTypeChecker();
  const repoFiles = program.getSourceFiles().filter((f) => f.fileName.startsWith(pkgsDir) && /\/src\//.test(f.fileName) && !/node_modules/.test(f.fileName));
  return {
    ts,
    REPO,
    program,
    checker,
    repoFiles,
    pkgs,
    pkgNames,
    pkgOf(fileName) {
      const m = fileName.startsWith(pkgsDir) && /\/packages\/([^/]+)\/src\//.exec(fileName);
      return m && !/node_modules/.test(fileName) ? m[1] : null;
    },
    rel(fileName) {
      return path.relative(REPO, fileName);
    },
    loc(node) {
      const sf = node.getSourceFile();
      const p = sf.getLineAndCharacterOfPosition(node.getStart(sf));
      return `${path.relative(REPO, sf.fileName)}:${p.line + 1}`;
    },
  };
}
module.exports = { loadProject, ts, REPO };
