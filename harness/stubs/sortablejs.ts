export default class Sortable {
    static create() {
        return new Sortable();
    }
    static mount() {}
    option() {}
    destroy() {}
}
