// Calls services through generated TypeScript clients: one JSON request per line, one JSON answer per line.
const check = require('./check.js');
const vm = require('vm');
const assert = require('assert');
const load = js => {
	const cache = {};
	const path = require('path').posix;
	const req = from => name => {
		const f = path.normalize(path.join(path.dirname(from), name)) + '.js';
		if (!(f in js)) throw new Error('no module ' + f);
		if (!cache[f]) {
			cache[f] = { exports: {} };
			vm.runInThisContext('(function(exports,require,module){' + js[f] + '\n})', { filename: f })(cache[f].exports, req(f), cache[f]);
		}
		return cache[f].exports;
	};
	return f => req('root.js')('./' + f.replace(/\.ts$/, ''));
};
const same = (a, b) => { try { assert.deepStrictEqual(a, b); return true; } catch (e) { return false; } };
const text = v => v === undefined ? 'undefined' : JSON.stringify(v);
check.serve(async q => {
	const a = { diags: check.diags(check.program(q.files)), fails: [], n: 0 };
	const fail = (key, c, msg) => { if (a.fails.length < 20) a.fails.push({ key, name: c.service + '.' + c.func, msg }); };
	let require_;
	const js = check.js(q.files, check.ts.ModuleKind.CommonJS);
	require_ = load(js);
	const clients = {};
	for (const c of q.calls) {
		let client, sent;
		try {
			const cls = require_(c.module)[c.cls];
			if (cls.defaultEndpoint !== c.endpoint) fail('endpoint', c, `endpoint ${cls.defaultEndpoint} for ${c.endpoint}`);
			client = new cls(async (method, data) => {
				sent.n++;
				const r = await fetch(q.base + cls.defaultEndpoint + '/' + encodeURIComponent(method), { method: 'POST', body: JSON.stringify(data), headers: { 'X-Rets': encodeURIComponent(JSON.stringify(sent.rets)) } });
				const body = await r.text();
				sent.called = JSON.parse(decodeURIComponent(r.headers.get('X-Called').replace(/\+/g, ' ')));
				if (r.status !== 200) throw new Error(r.status + ' ' + body);
				return JSON.parse(body);
			});
		} catch (e) { fail('load', c, String(e && e.stack || e)); continue; }
		if (typeof client[c.method] !== 'function') { fail('method', c, 'the client has no method ' + c.method); continue; }
		const own = Object.getOwnPropertyNames(Object.getPrototypeOf(client)).filter(n => n !== 'constructor').sort();
		if (!same(own, c.methods)) fail('methods', c, `the client has ${own} for ${c.methods}`);
		for (const v of c.vectors) {
			a.n++;
			sent = { n: 0, rets: v.rets };
			let got, shown = `(${v.args.map(text)}) returning (${v.rets.map(text)})`;
			try { got = await client[c.method](...v.args); } catch (e) { fail('call', c, shown + ': ' + e); continue; }
			if (sent.n !== 1) { fail('transport', c, `${shown}: ${sent.n} calls of the transport`); continue; }
			const k = sent.called;
			if (k.length !== 1 || k[0].func !== c.service + '.' + c.func || !same(k[0].args, v.args) || k[0].web !== c.web) {
				fail('called', c, `${shown}: the service saw ${text(k)}`);
				continue;
			}
			if (c.keys.length === 0 ? got !== undefined : c.keys.length === 1 ? !same(got, v.rets[0]) : got === null || typeof got !== 'object' || Object.keys(got).length !== c.keys.length) {
				fail('result', c, `${shown}: resolved to ${text(got)}`);
			} else if (c.keys.length > 1) {
				const keys = Object.keys(got);
				c.keys.forEach((n, i) => {
					if (n === '') n = keys[i]; // blank: any name
					if (!Object.prototype.hasOwnProperty.call(got, n) || !same(got[n], v.rets[i])) fail('result', c, `${shown}: resolved to ${text(got)}, ${n} is not ${text(v.rets[i])}`);
				});
			}
		}
	}
	return a;
});
