// Compares documents with generated TypeScript types, in both directions: one JSON request per line, one JSON answer per line.
const check = require('./check.js');
const ts = check.ts, F = ts.TypeFlags;
const zero = v => v === null || v === undefined || v === '' || v === 0 || v === false || (Array.isArray(v) ? v.length === 0 : typeof v === 'object' && Object.values(v).every(zero));
class Shapes {
	constructor(program) { this.c = program.getTypeChecker(); this.found = new Set(); }
	text(t) { return this.c.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation); }
	array(t) { return this.c.isArrayType(t) ? this.c.getTypeArguments(t)[0] : undefined; }
	props(t) {
		return this.c.getPropertiesOfType(t).map(p => ({ name: p.name, optional: !!(p.flags & ts.SymbolFlags.Optional), type: this.c.getTypeOfSymbol(p) }));
	}
	any(t) { return !!(t.flags & (F.Any | F.Unknown)); }
	// why d is no t, or undefined
	why(t, d, at) {
		at = at || 'it';
		const no = () => `${at} is ${JSON.stringify(d)}, no ${this.text(t)}`;
		if (this.any(t)) return;
		if (t.flags & F.Union) {
			let first;
			for (const m of t.types) {
				const w = this.why(m, d, at);
				if (w === undefined) return;
				if (m.flags & (F.Object | F.Intersection) && d !== null && typeof d === 'object') first = w;
			}
			return first && t.types.filter(m => m.flags & (F.Object | F.Intersection)).length === 1 ? first : no();
		}
		if (t.flags & F.StringLike && t.isStringLiteral()) return d === t.value ? undefined : no();
		if (t.flags & F.NumberLike && t.isNumberLiteral()) return d === t.value ? undefined : no();
		if (t.flags & F.BooleanLiteral) return String(d) === this.text(t) && typeof d === 'boolean' ? undefined : no();
		if (t.flags & F.String) return typeof d === 'string' ? undefined : no();
		if (t.flags & F.Number) return typeof d === 'number' ? undefined : no();
		if (t.flags & F.Enum) return typeof d === 'number' ? undefined : no();
		if (t.flags & F.Boolean) return typeof d === 'boolean' ? undefined : no();
		if (t.flags & F.Null) return d === null ? undefined : no();
		if (t.flags & F.Undefined) return d === undefined ? undefined : no();
		const consts = this.props(t);
		if (typeof d === 'string' && consts.length && consts.every(p => p.type.flags & F.EnumLiteral) && consts.some(p => p.type.value === d)) {
			this.found.add('union-of-constants'); // the type of the object of the constants, not of the constants
			return;
		}
		if (!(t.flags & (F.Object | F.Intersection))) return `${at}: unexpected type ${this.text(t)}`;
		if (d === null || typeof d !== 'object') return no();
		const el = this.array(t);
		if (el) {
			if (!Array.isArray(d)) return no();
			for (let i = 0; i < d.length; i++) { const w = this.why(el, d[i], `${at}[${i}]`); if (w) return w; }
			return;
		}
		if (Array.isArray(d)) return no();
		const known = new Set();
		for (const p of this.props(t)) {
			known.add(p.name);
			if (!Object.prototype.hasOwnProperty.call(d, p.name)) {
				if (t.objectFlags & ts.ObjectFlags.Mapped && !p.optional) { this.found.add('map-of-constants'); continue; }
				if (!p.optional) return `${at} has no member ${p.name}: ${this.text(p.type)}`;
				continue;
			}
			if (this.nilemb && p.optional && d[p.name] === null) { this.found.add('inline-pointer'); continue; }
			if (this.nilptr && p.optional && d[p.name] === null && !this.any(p.type)) { this.found.add('nil-collection'); continue; }
			const w = this.why(p.type, d[p.name], `${at}.${p.name}`);
			if (w) return w;
		}
		const ix = this.c.getIndexInfosOfType(t);
		for (const k of Object.keys(d)) if (!known.has(k)) {
			const info = ix.find(i => i.keyType.flags & F.Number ? /^-?\d+$/.test(k) : i.keyType.flags & F.String);
			if (!info) return `${at} has an undeclared member ${k}`;
			const w = this.why(info.type, d[k], `${at}.${k}`);
			if (w) return w;
		}
	}
	// documents of t, the plainest first
	sample(t, depth) {
		if (this.any(t)) return depth > 0 ? [null, 's', 1, true, [1], { k: 'v' }] : [null];
		if (t.flags & F.Union) {
			const out = [];
			for (const m of t.types) if (!(m.flags & F.Undefined)) out.push(...this.sample(m, depth));
			return out;
		}
		if (t.flags & F.StringLike && t.isStringLiteral()) return [t.value];
		if (t.flags & F.NumberLike && t.isNumberLiteral()) return [t.value];
		if (t.flags & F.BooleanLiteral) return [this.text(t) === 'true'];
		if (t.flags & F.String) return ['abcd', ''];
		if (t.flags & (F.Number | F.Enum)) return [7, 0, 1];
		if (t.flags & F.Null) return [null];
		if (!(t.flags & (F.Object | F.Intersection))) throw new Error('no documents of ' + this.text(t));
		const el = this.array(t);
		if (el) {
			if (depth <= 0) return [[]];
			const xs = this.sample(el, depth - 1);
			const out = [[]];
			xs.forEach((x, i) => out.push([x], [x, xs[(i + 1) % xs.length]]));
			return out;
		}
		const base = {}, out = [base], alts = [];
		for (const p of this.props(t)) {
			const xs = depth <= 0 && p.optional ? [] : this.sample(p.type, depth - 1);
			if (!p.optional) base[p.name] = depth <= 0 && xs.includes(null) ? null : xs[0];
			alts.push([p, xs]);
		}
		if (depth > 0) {
			for (const [p, xs] of alts) for (const x of xs) out.push(Object.assign({}, base, { [p.name]: x }));
			for (let i = 0; i < 2; i++) out.push(Object.fromEntries(alts.map(([p, xs]) => [p.name, xs[Math.min(i, xs.length - 1)]])));
			for (const i of this.c.getIndexInfosOfType(t)) {
				const num = !!(i.keyType.flags & F.Number);
				this.sample(i.type, depth - 1).forEach((x, n) => out.push(Object.assign({}, base, { [num ? String(n) : 'k' + n]: x })));
			}
		}
		return out;
	}
	// d without what may be left out
	plain(t, d) {
		if (this.any(t) || d === null || d === undefined || typeof d !== 'object') return d;
		if (t.flags & F.Union) {
			const m = t.types.find(m => m.flags & (F.Object | F.Intersection) && this.why(m, d) === undefined) || t.types.find(m => m.flags & (F.Object | F.Intersection));
			return m ? this.plain(m, d) : d;
		}
		const el = this.array(t);
		if (el) return Array.isArray(d) ? d.map(x => this.plain(el, x)) : d;
		if (Array.isArray(d)) return d;
		const ps = new Map(this.props(t).map(p => [p.name, p]));
		const ix = this.c.getIndexInfosOfType(t)[0];
		const out = {};
		for (const k of Object.keys(d).sort()) {
			const p = ps.get(k);
			const v = p ? this.plain(p.type, d[k]) : ix ? this.plain(ix.type, d[k]) : d[k];
			if (p && p.optional && zero(v)) continue;
			out[k] = v;
		}
		return out;
	}
}
const json = v => JSON.stringify(v, (k, v) => v !== null && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map(k => [k, v[k]])) : v);
check.serve(async q => {
	const a = { fails: [], docs: 0, sent: 0, types: 0 };
	const program = check.program(q.files);
	a.diags = check.diags(program);
	const fail = (key, method, msg) => { a.fails.push({ key, name: method, msg }); };
	const s = new Shapes(program);
	const file = program.getSourceFile('/t/' + q.client);
	const cls = s.c.getExportsOfModule(s.c.getSymbolAtLocation(file)).find(x => x.name === q.cls);
	const ct = s.c.getDeclaredTypeOfSymbol(cls);
	const docs = await (await fetch(q.base + '/docs/' + q.group)).json();
	const params = {}, send = {}, descs = {};
	for (const m of q.methods) {
		const sym = s.c.getPropertyOfType(ct, m.method);
		if (!sym) { fail('method', m.name, 'no method ' + m.method); continue; }
		const sig = s.c.getTypeOfSymbol(sym).getCallSignatures()[0];
		const ret = s.c.getTypeArguments(sig.getReturnType())[0];
		const par = s.c.getTypeOfSymbol(sig.parameters[0]);
		a.types += 2;
		for (const r of docs[m.name] || []) {
			a.docs++;
			if (r.body === undefined) { fail('reply', m.name, `${r.value}: ${r.status} ${r.text}`); continue; }
			s.nilptr = r.nilptr;
			s.nilemb = r.nilemb;
			s.found.clear();
			const w = s.why(ret, r.body);
			s.nilptr = s.nilemb = false;
			for (const f of s.found) fail('@' + f, m.name, `${r.value} is sent as ${JSON.stringify(r.body)} for type ${s.text(ret)}`);
			if (w !== undefined) fail('sent', m.name, `${r.value} is sent as ${JSON.stringify(r.body)} for type ${s.text(ret)}: ${w}`);
		}
		if (!docs[m.name] || !docs[m.name].length) fail('none', m.name, 'no documents');
		if (m.echo) {
			params[m.name] = par;
			descs[m.name] = m.desc;
			send[m.name] = [...new Set(s.sample(par, q.depth).map(d => JSON.stringify(d)))].map(d => JSON.parse(d));
		}
	}
	const back = await (await fetch(q.base + '/echo/' + q.group, { method: 'POST', body: JSON.stringify(send) })).json();
	for (const n of Object.keys(send)) {
		const t = params[n];
		send[n].forEach((d, i) => {
			a.sent++;
			const r = back[n][i];
			if (r.body === undefined) return fail(/Empty/.test(descs[n]) && r.status === 400 && /\[\{/.test(JSON.stringify(d)) ? '@slice-of-empty-structs' : 'accepted', n, `${JSON.stringify(d)} of type ${s.text(t)} is answered by ${r.status} ${r.text}`);
			const x = json(s.plain(t, d)), y = json(s.plain(t, r.body));
			if (x !== y) fail('understood', n, `${JSON.stringify(d)} of type ${s.text(t)} came back as ${JSON.stringify(r.body)}`);
		});
	}
	return a;
});
