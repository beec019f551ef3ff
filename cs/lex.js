'use strict';
// Tokens of C#. `>` is always a token of its own; the parser joins adjacent ones.

class Unsupported extends Error {}
class SyntaxError_ extends Error {}

const KEYWORDS = new Set(('abstract as base bool break byte case catch char checked class const continue decimal default delegate do double else enum ' +
  'event explicit extern false finally fixed float for foreach goto if implicit in int interface internal is lock long namespace new null ' +
  'object operator out override params private protected public readonly ref return sbyte sealed short sizeof stackalloc static string ' +
  'struct switch this throw true try typeof uint ulong unchecked unsafe ushort using virtual void volatile while').split(' '));

const PUNCT = ['??=', '<<=', '...', '=>', '->', '++', '--', '&&', '||', '==', '!=', '<=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '::', '<<', '??', '?.', '?['];

function lex(src, file) {
  const toks = [];
  let i = 0, line = 1;
  const n = src.length;
  if (src.charCodeAt(0) === 0xfeff) i = 1;
  const err = m => new SyntaxError_(`${file}:${line}: ${m}`);
  const isId = c => /[\p{L}\p{Nl}\p{Nd}\p{Mn}\p{Mc}\p{Pc}_]/u.test(c);
  const isIdStart = c => /[\p{L}\p{Nl}_]/u.test(c);
  const escape = () => {
    // at the character after a backslash
    const c = src[i++];
    const simple = { n: '\n', t: '\t', r: '\r', '0': '\0', a: '\x07', b: '\b', f: '\f', v: '\v', '\\': '\\', '"': '"', "'": "'" };
    if (c in simple) return simple[c];
    if (c === 'u') { const h = src.substr(i, 4); i += 4; return String.fromCharCode(parseInt(h, 16)); }
    if (c === 'x') { const m = /^[0-9a-fA-F]{1,4}/.exec(src.substr(i, 4)); i += m[0].length; return String.fromCharCode(parseInt(m[0], 16)); }
    if (c === 'U') { const h = src.substr(i, 8); i += 8; return String.fromCodePoint(parseInt(h, 16)); }
    throw err('bad escape');
  };
  const push = (k, v, extra) => toks.push(Object.assign({ k, v, line, at: i }, extra));
  const interpolated = verbatim => {
    const parts = [];
    let text = '';
    for (;;) {
      if (i >= n) throw err('unterminated string');
      const c = src[i];
      if (c === '"') {
        if (verbatim && src[i + 1] === '"') { text += '"'; i += 2; continue; }
        i++;
        break;
      }
      if (c === '{') {
        if (src[i + 1] === '{') { text += '{'; i += 2; continue; }
        parts.push(text);
        text = '';
        let depth = 0, j = i + 1, inStr = false;
        for (; ; j++) {
          if (j >= n) throw err('unterminated interpolation');
          const d = src[j];
          if (inStr) { if (d === '\\') j++; else if (d === '"') inStr = false; continue; }
          if (d === '"') inStr = true;
          else if ('([{'.includes(d)) depth++;
          else if (d === '}' && depth === 0) break;
          else if (')]}'.includes(d)) depth--;
        }
        parts.push({ src: src.slice(i + 1, j), line });
        i = j + 1;
        continue;
      }
      if (c === '}') { text += '}'; i += src[i + 1] === '}' ? 2 : 1; continue; }
      if (c === '\\' && !verbatim) { i++; text += escape(); continue; }
      if (c === '\n') line++;
      text += c;
      i++;
    }
    parts.push(text);
    return parts;
  };
  while (i < n) {
    const c = src[i];
    if (c === '\n') { line++; i++; continue; }
    if (/\s/.test(c)) { i++; continue; }
    if (c === '/' && src[i + 1] === '/') { while (i < n && src[i] !== '\n') i++; continue; }
    if (c === '/' && src[i + 1] === '*') {
      const j = src.indexOf('*/', i + 2);
      if (j < 0) throw err('unterminated comment');
      line += src.slice(i, j).split('\n').length - 1;
      i = j + 2;
      continue;
    }
    if (c === '#') {
      const j = src.indexOf('\n', i);
      const text = src.slice(i, j < 0 ? n : j);
      if (/^#\s*(if|elif|else|endif|define)/.test(text)) throw new Unsupported('conditional compilation');
      i = j < 0 ? n : j;
      continue;
    }
    const sp = src.slice(i, i + 3);
    if (sp.startsWith('$@"') || sp.startsWith('@$"')) { i += 3; push('interp', interpolated(true)); continue; }
    if (sp.startsWith('$"')) { i += 2; push('interp', interpolated(false)); continue; }
    if (sp.startsWith('@"')) {
      i += 2;
      let text = '';
      for (;;) {
        if (i >= n) throw err('unterminated string');
        if (src[i] === '"') { if (src[i + 1] === '"') { text += '"'; i += 2; continue; } i++; break; }
        if (src[i] === '\n') line++;
        text += src[i++];
      }
      push('str', text);
      continue;
    }
    if (c === '"') {
      i++;
      let text = '';
      while (src[i] !== '"') {
        if (i >= n || src[i] === '\n') throw err('unterminated string');
        if (src[i] === '\\') { i++; text += escape(); } else text += src[i++];
      }
      i++;
      push('str', text);
      continue;
    }
    if (c === "'") {
      i++;
      let text;
      if (src[i] === '\\') { i++; text = escape(); } else text = src[i++];
      if (src[i] !== "'") throw err('bad character literal');
      i++;
      push('char', text.charCodeAt(0));
      continue;
    }
    if (/[0-9]/.test(c) || (c === '.' && /[0-9]/.test(src[i + 1] || ''))) {
      let m = /^0[xX]([0-9a-fA-F_]+)([uUlL]*)/.exec(src.substr(i, 80)) || /^0[bB]([01_]+)([uUlL]*)/.exec(src.substr(i, 80));
      if (m) {
        const radix = /[xX]/.test(src[i + 1]) ? '0x' : '0b';
        i += m[0].length;
        push('int', BigInt(radix + m[1].replace(/_/g, '')), { suffix: m[2].toLowerCase() });
        continue;
      }
      m = /^([0-9][0-9_]*)?(\.[0-9][0-9_]*)?([eE][+-]?[0-9]+)?([uUlLfFdDmM]*)/.exec(src.substr(i, 80));
      i += m[0].length;
      if (m[2] || m[3] || /[fFdDmM]/.test(m[4])) push('real', parseFloat(m[0].replace(/_/g, '')));
      else push('int', BigInt(m[1].replace(/_/g, '')), { suffix: m[4].toLowerCase() });
      continue;
    }
    if (isIdStart(c) || (c === '@' && isIdStart(src[i + 1] || ''))) {
      const at = c === '@';
      let j = at ? i + 1 : i;
      const from = j;
      while (j < n && isId(src[j])) j++;
      const word = src.slice(from, j);
      i = j;
      push(!at && KEYWORDS.has(word) ? 'kw' : 'id', word);
      continue;
    }
    const p = PUNCT.find(x => src.startsWith(x, i));
    if (p && !(p === '?.' && /[0-9]/.test(src[i + 2] || '')) && p !== '?[') {
      i += p.length;
      push('p', p, { end: i });
      continue;
    }
    if ('{}()[];,.:+-*/%&|^!~=<>?'.includes(c)) {
      i++;
      push('p', c, { end: i });
      continue;
    }
    throw err(`unexpected character ${JSON.stringify(c)}`);
  }
  toks.push({ k: 'eof', v: '', line, at: n });
  // start positions, for adjacency
  return toks;
}

module.exports = { lex, Unsupported, SyntaxError_, KEYWORDS };
