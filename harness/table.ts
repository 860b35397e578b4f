// Items and columns shared by the table adapters; row numbers are those of the specifications.
const K = [2, 1, 2, undefined, 3];
const G = [1, 3, 2, 2, 1];
const TEXT = ['Alpha beta', 'alpha', 'Beta', 'alpha beta', 'ALPHA'];

/** A fresh object for row `r`. */
export function item(r: number) {
    const it: any = { id: `row${r}`, meta: { rank: G[r - 1] }, text: TEXT[r - 1], secret: 'alpha beta', deep: { note: 'beta alpha' } };
    if (K[r - 1] !== undefined) it.k = K[r - 1];
    return it;
}
export const LISTS: Record<string, number[]> = { five: [1, 2, 3, 4, 5], four: [5, 4, 3, 2], three: [3, 1, 2], tail: [3, 2, 4], one: [4], none: [] };
export const COLUMNS = [
    { key: 'id', label: 'Id' },
    { key: 'k', label: 'K', sortable: true },
    { key: 'text', label: 'G', sortable: true, sortBy: 'meta.rank' },
    { key: 'secret', label: 'Secret', skipSearch: true },
    { key: 'deep.note', label: 'Note', skipSearch: true },
];
export const rowNo = (it: any) => Number(String(it.id).slice(3));
export const rowsOf = (root: Element) =>
    (Array.from(root.querySelectorAll('tbody.vs-table-body tr.vs-table-body-row')) as HTMLElement[]).map((tr) => ({
        tr,
        no: Number((tr.querySelector('[data-label="Id"]')?.textContent ?? '').trim().slice(3)),
    }));
export const header = (root: Element, label: string) =>
    Array.from(root.querySelectorAll('.vs-table-header-row th')).find((th) => th.textContent?.trim() === label);
