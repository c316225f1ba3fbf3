"""Writes the "fixed:" lines of known_findings.txt; properties of the repairs in /repo"""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {
    "4a83491": ("C23", "MetadataPath was not normalised on python 3.12 and later: MetadataPath('/a') stayed absolute"),
    "f6967f8": ("C08", "comparison of equal metadata instance sets with several configurations raised an error"),
    "c781dcc": ("C06", "FileTree.add_extractor_run on a path without metadata raised an error"),
    "810aeaf": ("C01", "releasing or reading a root record without dataset-level metadata raised an error"),
    "22e0a19": ("C04", "len(), ==, and JSON conversion of released objects saw them as empty or raised an error"),
    "f0fea86": ("C04", "set and unget operations on released UUID sets and version lists lost the stored entries"),
    "ace6bf0": ("C01", "saving a tree version list returned a reference that could not be loaded as such"),
    "635f65a": ("C01", "saving an empty UUID set or tree raised an error"),
    "807f009": ("C07", "paths with line breaks or leading quotes were stored under other names"),
    "62d920a": ("C07", "paths with line boundaries like U+2028 or form feeds could not be read back"),
    "99daaa6": ("C01", "stored text was changed on load: carriage returns and a missing final line feed"),
    "8edd195": ("C16", "Text.deepcopy returned a copy without content"),
    "a3bf89a": ("C01", "a loaded record with an empty file tree could not be saved again"),
    "c552d38": ("C06", "empty directories were stored and became unreadable entries of the file tree"),
    "378a619": ("C02", "a container was considered saved although a sub-object was modified and saved separately; the modification was lost"),
    "236e354": ("C11", "after a failed first save an object had a realm, and a later release lost its content"),
    "66ea32d": ("C02", "saving a released object without destination raised an error"),
    "3d528e7": ("C15", "saving alternately on two realms returned an outdated state of one of them"),
    "7cc7ceb": ("C09", "root records that are only in version lists were lost by garbage collection"),
    "a8f2c9f": ("C15", "object references were flushed to the wrong realm, objects of the other realm were lost by garbage collection"),
    "9fc70f2": ("C11", "a failed read of the reference store replaced all references by the new ones"),
    "bd67d9c": ("C14", "a legacy conversion that failed once was never completed in this process"),
    "181321f": ("C11", "a failed read of a top-level object was taken for an empty store, and a following save replaced it"),
    "16110e5": ("C11", "failures while saving a file tree lost cached metadata of later saves"),
    "49cdfe4": ("C13", "two spellings of the same realm did not exclude each other"),
    "207dbf2": ("C22", "metadata sources in repositories with blanks or quotes in the path delivered nothing or other content"),
    "5629c10": ("C19", "byte strings in the blob cache raised an error on flush"),
    "54ca069": ("C17", "a lookup without auto_create added version entries to the indices"),
    "45ef0c1": ("C11", "metadata blobs of a file tree whose save failed were recorded as references to missing objects"),
    "5f8d396": ("C12", "a top-level object that was created between read and existence check was taken for missing"),
    "af01f6e": ("C20", "an unreachable remote with stored metadata was reported as empty"),
    "ab17251": ("C26", "elements looked up or modified while a tree was listed got lost, or the listing failed"),
    "47bc521": ("C22", "content written to a file before a metadata source was written to it ended up behind the object"),
    "fc284fd": ("C01", "a root record without dataset identifier could not be loaded, a missing version was read as 'None'"),
    "5d1d7a6": ("C25", "reading failed if the current directory holds a file that is named like the reference or object"),
}


def main():
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], check=True,
        stdout=subprocess.PIPE, text=True).stdout.splitlines()
    lines = ["# known:  property=<id> key=<key> <what fails>   (reported as KNOWN-FINDING)",
             "# fixed:  property=<id> <commit> <what failed>    (suppresses nothing)"]
    for line in log:
        commit, subject = line.split(" ", 1)
        if subject.startswith("fix:"):
            ident, text = PROPERTY[commit[:7]]
            lines.append(f"fixed: property={ident} {commit} {text}")
    with open(os.path.join(HERE, "known_findings.txt"), "w") as f:
        f.write("\n".join(lines) + "\n")


if __name__ == "__main__":
    main()
