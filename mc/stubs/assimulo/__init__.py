"""Stand-in for the assimulo package (not installable offline): see DESIGN.md."""
