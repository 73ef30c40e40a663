import "./dom.mjs";
export * from "./dom.mjs";
export { MathMLRenderer, joinPathIdentifier } from "@front/mathml/renderer";
export { fromElement, unicodeSplit } from "@front/mathml/parsing";
export { RowIndices } from "@front/input-tree/row-indices";
export { MathEditor } from "@front/component/math-editor";
export { names, told, has } from "./pkg.mjs";
export { getNodeWithRowIndices } from "@front/core";
// what a page loads
export const main = () => import("@front/main");
