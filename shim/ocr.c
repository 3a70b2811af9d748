/* Stand-in for "gm convert" and "tesseract", controlled by files in the working directory:
   gm.pages (number of pages, default 1), gm.exit / tess.exit (exit status; "k" dies by a signal), ocr.tsv (OCR result; none is
   written if it is missing). tess.list gets the names of the page images that tesseract was given, in order. As with the real programs,
   nothing is recognised if there are no pages, if they were rendered too coarsely, or at another resolution than the OCR is told, or if
   it is to read another language. A PDF that says "tsv:NAME" is recognised as NAME instead of ocr.tsv. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void leave(const char *name) {
    char b[32] = "";
    FILE *f = fopen(name, "r");
    if (f) {
        if (!fgets(b, sizeof b, f)) b[0] = 0;
        fclose(f);
    }
    if (b[0] == 'k') raise(SIGKILL);
    exit(atoi(b));
}

int main(int argc, char **argv) {
    char line[4096], path[4200];
    if (argc > 2 && !strcmp(argv[1], "convert")) {
        int n = 1, dpi = 72;
        FILE *f = fopen("gm.pages", "r");
        if (f) {
            if (fscanf(f, "%d", &n) != 1) n = 1;
            fclose(f);
        }
        f = 0;
        for (int i = 2; i < argc - 1 && !f; i++)
            if (strstr(argv[i], ".pdf")) f = fopen(argv[i], "r");
        if (!f) return 1;
        char what[256] = "";
        if (fscanf(f, "tsv:%255s", what) != 1) strcpy(what, "ocr.tsv");
        fclose(f);
        for (int i = 2; i + 1 < argc; i++)
            if (!strcmp(argv[i], "-density")) dpi = atoi(argv[i + 1]);
        for (int i = 0; i < n; i++) {
            snprintf(path, sizeof path, argv[argc - 1], i);
            FILE *o = fopen(path, "w");
            if (!o) return 1;
            fprintf(o, "%d %s", dpi, what);
            fclose(o);
        }
        leave("gm.exit");
    }
    if (argc < 4 || strcmp(argv[argc - 1], "tsv")) return 3;
    int told = 0, legible = 1, pages = 0;
    char what[256] = "ocr.tsv", of[256];
    for (int i = 1; i + 1 < argc; i++) {
        if (!strcmp(argv[i], "--dpi")) told = atoi(argv[i + 1]);
        if (!strcmp(argv[i], "-l") && strcmp(argv[i + 1], "eng")) {
            fprintf(stderr, "no such language: %s\n", argv[i + 1]);
            return 7;
        }
    }
    FILE *list = fopen(argv[argc - 3], "r"), *log = fopen("tess.list", "w");
    if (!list || !log) return 4;
    while (fgets(line, sizeof line, list)) {
        line[strcspn(line, "\n")] = 0;
        FILE *page = fopen(line, "r");
        int dpi = 0;
        if (!page) return 5;
        if (fscanf(page, "%d %255s", &dpi, of) != 2 || dpi < 200 || (told && told != dpi)) legible = 0;
        else if (!pages) strcpy(what, of);
        else if (strcmp(what, of)) legible = 0;
        pages++;
        fclose(page);
        fprintf(log, "%s\n", strrchr(line, '/') ? strrchr(line, '/') + 1 : line);
    }
    fclose(list);
    fclose(log);
    FILE *in = fopen(what, "r");
    if (!pages) legible = 0;
    if (in) {
        snprintf(path, sizeof path, "%s.tsv", argv[argc - 2]);
        FILE *o = fopen(path, "w");
        size_t k;
        if (!o) return 6;
        if (legible)
            while ((k = fread(line, 1, sizeof line, in)) > 0) fwrite(line, 1, k, o);
        else if (fgets(line, sizeof line, in))
            fputs(line, o);
        fclose(o);
        fclose(in);
    }
    leave("tess.exit");
}
