import assert from "node:assert";
import { bundlePage, setPage, Page } from "./page.mjs";
setPage(await bundlePage());
const grid = [...Array(81).keys()].map((i) => { const r = (i / 9) | 0, c = i % 9; return ((r * 3 + ((r / 3) | 0) + c) % 9) + 1; });
export const puzzle = grid.map((v, i) => i % 3 ? v : 0), bytes = (s) => new TextEncoder().encode(s);
export const opened = (d) => { const c = JSON.parse(new TextDecoder().decode(d.bytes)); return { ...c, msg: Buffer.from(c.msg, "base64").toString() }; };
/** The page, opened, with its circuit files there. */
export async function page() {
  const sudoku = { generator: () => puzzle.map((v) => v || -1), Sudoku: class { getSolution() { return grid.slice(); } } };
  const p = new Page({ served: Object.fromEntries(["r1cs", "sym", "wasm"].map((x) => ["/circuits/sudoku." + x, bytes(x)])), sudoku }); await p.open(); await p.rest(); return p;
}
export const press = async (p, id) => { assert(await p.click(p.button("playground." + id)), id + " is not offered"); };
export const area = async (p, n, s) => { assert(await p.type(p.textareas()[n], s), "text"); };
export const upload = async (p, ext, n = 0) => { assert(await p.give(p.file("." + ext, n), bytes("some " + ext), "f." + ext), "upload"); };
/** All files of a custom circuit (whatever the page asks for). */
export const circuit = async (p) => { for (const e of ["r1cs", "sym", "wasm"]) if (p.file("." + e)) { await upload(p, e); await p.rest(); } };
export const idle = (p) => p.all((x) => x.tag === "translate" && /\.(encrypting|decrypting|solving)$/.test(x.props.id)).length === 0;
