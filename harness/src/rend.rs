//! Recording renderer: writes one token per call, using private-use characters
//! as brackets, so that the rendered text shows exactly which calls were made,
//! where, in what order and with which arguments.

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    parser::{
        CharacterReplacementType, IconRenderParams, ImageRenderParams,
        InlineSubstitutionRenderer, LinkRenderParams, LinkRenderType, QuoteScope, QuoteType,
        SpecialCharacter,
    },
};

const O: char = '\u{E100}';
const C: char = '\u{E101}';
const S: char = '\u{E102}';

fn tok(dest: &mut String, parts: &[&str]) {
    dest.push(O);
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            dest.push(S);
        }
        dest.push_str(p);
    }
    dest.push(C);
}

fn al(a: &Attrlist<'_>) -> String {
    let style = a
        .nth_attribute(1)
        .and_then(|x| x.block_style())
        .unwrap_or("");
    let id = a.id().unwrap_or("");
    format!(
        "{}/{}/{}/{}",
        style,
        id,
        a.roles().join("."),
        a.options().join("%")
    )
}

#[derive(Debug)]
pub struct Sym;

impl InlineSubstitutionRenderer for Sym {
    fn render_special_character(&self, t: SpecialCharacter, dest: &mut String) {
        tok(
            dest,
            &[match t {
                SpecialCharacter::Lt => "lt",
                SpecialCharacter::Gt => "gt",
                SpecialCharacter::Ampersand => "amp",
            }],
        );
    }

    fn render_quoted_substitition(
        &self,
        t: QuoteType,
        s: QuoteScope,
        attrlist: Option<Attrlist<'_>>,
        id: Option<String>,
        body: &str,
        dest: &mut String,
    ) {
        let t = match t {
            QuoteType::Strong => "strong",
            QuoteType::DoubleQuote => "dquote",
            QuoteType::SingleQuote => "squote",
            QuoteType::Monospaced => "mono",
            QuoteType::Emphasis => "emph",
            QuoteType::Mark => "mark",
            QuoteType::Superscript => "sup",
            QuoteType::Subscript => "sub",
            QuoteType::Unquoted => "unq",
        };
        let s = match s {
            QuoteScope::Constrained => "c",
            QuoteScope::Unconstrained => "u",
        };
        let a = attrlist.as_ref().map(al).unwrap_or_default();
        tok(dest, &[t, s, id.as_deref().unwrap_or(""), &a, body]);
    }

    fn render_character_replacement(&self, t: CharacterReplacementType, dest: &mut String) {
        let s = match &t {
            CharacterReplacementType::Copyright => "copy",
            CharacterReplacementType::Registered => "reg",
            CharacterReplacementType::Trademark => "tm",
            CharacterReplacementType::EmDashSurroundedBySpaces => "emdashsp",
            CharacterReplacementType::EmDashWithoutSpace => "emdash",
            CharacterReplacementType::Ellipsis => "ellipsis",
            CharacterReplacementType::SingleRightArrow => "rarr",
            CharacterReplacementType::DoubleRightArrow => "rdarr",
            CharacterReplacementType::SingleLeftArrow => "larr",
            CharacterReplacementType::DoubleLeftArrow => "ldarr",
            CharacterReplacementType::TypographicApostrophe => "apos",
            CharacterReplacementType::CharacterReference(n) => {
                tok(dest, &["cref", n]);
                return;
            }
        };
        tok(dest, &[s]);
    }

    fn render_line_break(&self, dest: &mut String) {
        tok(dest, &["br"]);
    }

    fn render_image(&self, p: &ImageRenderParams, dest: &mut String) {
        let a = al(p.attrlist);
        tok(
            dest,
            &[
                "image",
                p.target,
                &p.alt,
                p.width.unwrap_or(""),
                p.height.unwrap_or(""),
                &a,
            ],
        );
    }

    fn image_uri(&self, t: &str, _parser: &Parser, _k: Option<&str>) -> String {
        t.to_string()
    }

    fn render_icon(&self, p: &IconRenderParams, dest: &mut String) {
        let a = al(p.attrlist);
        tok(
            dest,
            &["icon", p.target, &p.alt, p.size.unwrap_or(""), &a],
        );
    }

    fn render_link(&self, p: &LinkRenderParams, dest: &mut String) {
        let t = match p.type_ {
            LinkRenderType::Link => "link",
        };
        let a = al(p.attrlist);
        tok(
            dest,
            &[
                t,
                &p.target,
                &p.extra_roles.join("."),
                p.window.unwrap_or(""),
                &a,
                &p.link_text,
            ],
        );
    }

    fn render_anchor(&self, id: &str, reftext: Option<String>, dest: &mut String) {
        tok(dest, &["anchor", id, reftext.as_deref().unwrap_or("")]);
    }
}
