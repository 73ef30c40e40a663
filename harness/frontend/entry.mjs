import "./dom.mjs";
export * from "./dom.mjs";
export { MathMLRenderer, joinPathIdentifier } from "@front/mathml/renderer";
export { fromElement, unicodeSplit } from "@front/mathml/parsing";
export { RowIndices } from "@front/input-tree/row-indices";
export { getNodeWithRowIndices, ModulesCreator, DefaultParser, MathEditorBindings, MathEditorHelper, makeMathParserWith, ParseModulesCreator } from "@front/core";
export { MathEditor } from "@front/component/math-editor";
// what a page loads
export const main = () => import("@front/main");
