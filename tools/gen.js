"use strict";
const fs = require("fs"), path = require("path");
const root = path.join(__dirname, "..");
const P = require("./props.js");
const lines = [], checks = [], na = [];
for (const x of P) {
  if (x.title.length > 80) throw new Error(x.id + " title too long " + x.title.length);
  lines.push(JSON.stringify({ id: x.id, title: x.title, statement: x.statement, quantifier: { over: x.over, text: x.q }, why_tests_cant: x.why, anchors: { files: x.files, mechanism: x.mech.map(([name, where]) => ({ name, where })) } }));
  if (x.na) na.push({ property: x.id, reason: x.na });
  else {
    if (!fs.existsSync(path.join(root, "rules", x.id + ".js"))) throw new Error("no rule " + x.id);
    const r = require("../rules/" + x.id + ".js");
    checks.push({ property: x.id, quick_cmd: `node check.js ${x.id} quick`, thorough_cmd: `node check.js ${x.id} thorough`, technique: r.technique || "abstract interpretation of the type-checked source (path-sensitive dataflow with typestate facts)", level: "other", level_note: "Static analysis. " + (r.rule || "") + (r.assumptions && r.assumptions.length ? " Assumptions: " + r.assumptions.join("; ") + "." : "") });
  }
}
fs.writeFileSync(path.join(root, "properties.jsonl"), lines.join("\n") + "\n");
fs.writeFileSync(path.join(root, "MANIFEST.json"), JSON.stringify({ version: 1, setup_cmd: "true", checks, not_applicable: na, notes: "All checks share engine/ (abstract interpreter over the TypeScript compiler's typed AST). known-findings.txt lists genuine defects." }, null, 1) + "\n");
// per-property section of DESIGN.md
const D = path.join(root, "DESIGN.md");
const sec = P.filter((x) => !x.na).map((x) => {
  const r = require("../rules/" + x.id + ".js");
  return [`### ${x.id} ${x.title}`, "", `* **Analysed**: ${x.mech.map(([n, w]) => `\`${n}\` (${w.replace("packages/", "")})`).join(", ")}, reached from the public API.`, `* **Rule**: ${r.rule}.`, `* **Quantified over**: ${x.q}. **Why tests cannot**: ${x.why}`, `* **Assumptions and bounds**: ${(r.assumptions || []).join("; ") || "none beyond the boundary model"}.`, ""].join("\n");
});
const nas = P.filter((x) => x.na).map((x) => `* **${x.id} ${x.title}**: ${x.na}`);
const sd = path.join(root, "seeded");
const seeds = fs.existsSync(sd) ? fs.readdirSync(sd).sort().map((b) => { const m = JSON.parse(fs.readFileSync(path.join(sd, b, "meta.json"), "utf8")); return `| ${b} | ${m.property} | ${m.what_it_breaks} (needs ${m.needs}) | ${m.property} |`; }) : [];
const put = (t, tag, body) => t.replace(new RegExp(`(<!-- ${tag} -->\n)[\\s\\S]*(<!-- /${tag} -->)`), (m, a, b) => a + body + "\n" + b);
if (fs.existsSync(D)) fs.writeFileSync(D, put(put(put(fs.readFileSync(D, "utf8"), "seeds", ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|", ...seeds].join("\n")), "properties", sec.join("\n")), "not-applicable", nas.join("\n")));
console.log(lines.length, checks.length, na.length);
