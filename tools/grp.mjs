// summarise a dump of violations: node tools/grp.mjs FILE [regex with groups]
import fs from 'node:fs';const d=JSON.parse(fs.readFileSync(process.argv[2]));const re=process.argv[3]?new RegExp(process.argv[3]):/^([^:]*)/;const g={};for(const[k,v]of d){const m=k.match(re);const kk=(m?m.slice(1).join('|'):'?')+' '+(v.got??Object.keys(v)[0]);(g[kk]??=[]).push([k,v])}
for(const k in g){g[k].sort((a,b)=>a[0].length-b[0].length);console.log(k,g[k].length,g[k][0][0],JSON.stringify(g[k][0][1]).slice(0,250))}
