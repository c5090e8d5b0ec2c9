// Type-checks sets of TypeScript files: one JSON request per line on stdin, one JSON answer per line on stdout.
// request: {files: {path: text}, js: bool}; answer: {diags: [{file, line, code, text}], js: {path: text}}
const ts = require('/opt/veriftools/node/node_modules/typescript');
const path = require('path');
const options = {
	target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020, moduleResolution: ts.ModuleResolutionKind.Bundler,
	lib: ['lib.es2020.d.ts'], strict: true, skipLibCheck: true, types: [], isolatedModules: true,
};
const libDir = path.dirname(ts.getDefaultLibFilePath(options));
const libs = new Map();
exports.program = (files, more) => {
	const opts = Object.assign({}, options, more);
	const at = n => n.startsWith('/t/') ? files[n.slice(3)] : undefined;
	const host = {
		fileExists: n => at(n) !== undefined || n.startsWith(libDir) && ts.sys.fileExists(n),
		readFile: n => at(n) !== undefined ? at(n) : ts.sys.readFile(n),
		directoryExists: d => true,
		getDirectories: () => [],
		getSourceFile: (n, v) => {
			if (at(n) !== undefined) return ts.createSourceFile(n, at(n), v, true);
			if (!n.startsWith(libDir)) return undefined;
			if (!libs.has(n)) libs.set(n, ts.createSourceFile(n, ts.sys.readFile(n), v, true));
			return libs.get(n);
		},
		getDefaultLibFileName: o => path.join(libDir, ts.getDefaultLibFileName(o)),
		getDefaultLibLocation: () => libDir,
		writeFile: () => {}, getCurrentDirectory: () => '/t', getCanonicalFileName: n => n,
		useCaseSensitiveFileNames: () => true, getNewLine: () => '\n', getEnvironmentVariable: () => '',
	};
	return ts.createProgram(Object.keys(files).filter(f => f.endsWith('.ts')).map(f => '/t/' + f), opts, host);
};
exports.diags = program => [...program.getSyntacticDiagnostics(), ...program.getOptionsDiagnostics(), ...program.getGlobalDiagnostics(), ...program.getSemanticDiagnostics()].map(d => ({
	file: d.file ? d.file.fileName.replace(/^\/t\//, '') : '',
	line: d.file ? ts.getLineAndCharacterOfPosition(d.file, d.start).line + 1 : 0,
	code: d.code, text: ts.flattenDiagnosticMessageText(d.messageText, '\n'),
}));
exports.js = (files, module) => {
	const out = {};
	for (const f of Object.keys(files)) if (f.endsWith('.ts')) {
		out[f.replace(/\.ts$/, '.js')] = ts.transpileModule(files[f], { compilerOptions: Object.assign({}, options, { module }) }).outputText;
	}
	return out;
};
exports.ts = ts;
exports.serve = answer => {
	require('readline').createInterface({ input: process.stdin }).on('line', async line => {
		let a;
		try { a = await answer(JSON.parse(line)); } catch (e) { a = { error: String(e && e.stack || e) }; }
		process.stdout.write(JSON.stringify(a) + '\n');
	});
};
if (require.main === module) exports.serve(q => {
	const a = { diags: exports.diags(exports.program(q.files)) };
	if (q.js) a.js = exports.js(q.files, ts.ModuleKind.CommonJS);
	return a;
});
